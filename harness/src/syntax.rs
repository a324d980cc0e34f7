//! C01..C09: what the parsers do with text.
use crate::conv::{self, HAND, SING};
use crate::rfc;
use crate::text::{self, BASES, EXT_BASES};
use crate::vs;

pub fn warm(k: usize) {
    let _ = conv::accepts(k, "$[?length(@.a)>1.5]");
    let _ = conv::accepts(k, "$[");
}

/// Templates: free text behind, and inside, every construct.
pub static FREE: &[&[u8]] = &[
    b"\x01\x01\x01",
    b"$\x01\x01",
    b"$.\x01\x01",
    b"$[\x01\x01",
    b"$[\x02\x02]",
    b"$[\x01]\x01",
    b"$..\x01\x01",
    b"$.a\x01\x01",
    b"$[0\x01\x01",
    b"$[0:\x01\x01]",
    b"$[::\x01\x01]",
    b"$['\x01\x01']",
    b"$[\"\x01\x01\"]",
    b"$['\\\x01\x01']",
    b"$[?\x01\x01]",
    b"$[?@\x01\x01]",
    b"$[?@.a\x01\x01]",
    b"$[?@\x06\x01]",
    b"$[?@==\x01\x01]",
    b"$[?@==1\x01\x01]",
    b"$[?@==1\x01\x02\x02]",
    b"$[?@==-\x02\x02\x02]",
    b"$[?\x01\x01@]",
    b"$[?!\x01\x01]",
    b"$[?(@\x01\x01]",
    b"$[?@&&\x01\x01]",
    b"$[?@\x02\x02@]",
    b"$[?count(\x01\x01)>1]",
    b"$[?count(@\x01\x01>1]",
    b"$[?length(\x01\x01)==1]",
    b"$[?match(@\x01\x01'a')]",
    b"$[?match(@,\x01\x01)]",
    b"$[?\x02\x02(@)==1]",
];

/// Logical expressions: o an operator, ! an optional negation, e an operand.
static LOGIC: &[&[u8]] = &[
    b"eoe",
    b"eoeoe",
    b"eoeoeoe",
    b"!eo!eo!e",
    b"(eoe)oe",
    b"eo(eoe)",
    b"!(eoe)oe",
    b"eo!(eoe)oe",
    b"(eoe)o(eoe)",
    b"(eo(eoe)oe)oe",
    b"((eoe))o(!e)",
    b"!(!(eoe)o!e)",
];
static OPERANDS: &[&[u8]] = &[b"@.a", b"$.b==1", b"@['c']!=@[0]", b"match(@,'d')", b"@[?@.e||$.f&&@]"];

/// Bigger texts: many and long parts, deep nesting, long blanks.  * stands
/// for sixteen, ~ for 300 of what follows it, up to the next *, ~ or |.
static BIG: &[&[u8]] = &[
    b"$*.ab|.\x01",
    b"$*['a']|[\x02]",
    b"$[*1,|\x02]",
    b"$[*'a', |\x01'b']",
    b"$.~a|\x01",
    b"$['~x|\x01']",
    b"$['*\\u00e9\\n|\x01']",
    b"$[?@.a=='~y|\x01']",
    b"$[? ~ |\x02@]",
    b"$~ |.a\x02",
    b"$[*?@.a,|?\x01]",
    b"$[?*(|@.a*)|\x02]",
    b"$[?*!(|@.a\x02*)|]",
    b"$[?*@.a&&|*@.b\x02\x02|@]",
    b"$[?*@.a==1\x02\x02|@.b]",
    b"$[?@[?@[?@[?@[?@\x01]]]]]",
    b"$[?@[?@[?@[?@.a>1\x02\x02@]]]]",
    b"$*..a|..\x01",
    b"$[*1:2:3, |:\x02]",
    b"$[?count($*[0]|)>1\x02]",
    b"$.\xf0\x9f\x98\x80*\xe2\x98\xba\xc3\xa9|\x01",
];

/// A text of BIG.
fn big() -> String {
    let t = BIG[vs::choose(BIG.len())];
    let mut o: Vec<u8> = Vec::with_capacity(700);
    let mut i = 0;
    while i < t.len() {
        let n = match t[i] {
            b'*' => 16,
            b'~' => 300,
            b => {
                if b != b'|' {
                    text::hole(b, &mut o)
                }
                i += 1;
                continue;
            }
        };
        let from = i + 1;
        let mut to = from;
        while to < t.len() && !matches!(t[to], b'*' | b'~' | b'|') {
            to += 1
        }
        // the holes are filled once
        let mut piece: Vec<u8> = Vec::with_capacity(32);
        for &b in &t[from..to] {
            text::hole(b, &mut piece)
        }
        for _ in 0..n {
            o.extend_from_slice(&piece)
        }
        i = to;
    }
    vs::string(o)
}

fn logic() -> String {
    let t = LOGIC[vs::choose(LOGIC.len())];
    let gap = [&b""[..], b" ", b"\n\t"][vs::choose(3)];
    let first = vs::choose(OPERANDS.len());
    let mut n = first;
    let mut o: Vec<u8> = Vec::with_capacity(160);
    o.extend_from_slice(b"$[?");
    for &b in t {
        match b {
            b'e' => {
                o.extend_from_slice(OPERANDS[n % OPERANDS.len()]);
                n += 1
            }
            b'o' => {
                o.extend_from_slice(gap);
                o.extend_from_slice([&b"&&"[..], b"||"][vs::choose(2)]);
                o.extend_from_slice(gap)
            }
            b'!' => {
                if vs::choose(2) == 1 {
                    o.push(b'!');
                    o.extend_from_slice(gap)
                }
            }
            b => {
                o.push(b);
                if b == b'(' {
                    o.extend_from_slice(gap)
                }
            }
        }
    }
    o.push(b']');
    vs::string(o)
}

/// A call of a standard function, well-typed or not, in some context.
fn standard_call() -> String {
    let ctx = CALLS[vs::choose(12)];
    let two = vs::choose(2) == 1;
    let name: &[u8] = if two { [&b"match"[..], b"search"][vs::choose(2)] } else { [&b"length"[..], b"count", b"value"][vs::choose(3)] };
    let mut o: Vec<u8> = Vec::with_capacity(96);
    let a = ARGS[vs::choose(ARGS.len())];
    let call = if two { [name, b"(", a, b", ", [&b"'a'"[..], b"@.b", b"@"][vs::choose(3)], b")"].concat() } else { [name, b"(", a, b")"].concat() };
    for &b in ctx {
        match b {
            b'#' => o.extend_from_slice(&call),
            _ => o.push(b),
        }
    }
    vs::string(o)
}

/// A string literal somewhere.
fn string_text(t: &[u8], (pre, post): (&[u8], &[u8])) -> String {
    let (quote, other) = if vs::choose(2) == 0 { (b'\'', b'"') } else { (b'"', b'\'') };
    let mut o: Vec<u8> = Vec::with_capacity(96);
    o.extend_from_slice(pre);
    o.push(quote);
    for &b in t {
        match b {
            b'q' => o.push(quote),
            b'Q' => o.push(other),
            b => text::hole(b, &mut o),
        }
    }
    o.push(quote);
    o.extend_from_slice(post);
    vs::string(o)
}

/// A number literal somewhere.
fn number_text(t: &[u8], (pre, post): (&[u8], &[u8])) -> String {
    let mut o: Vec<u8> = Vec::with_capacity(96);
    o.extend_from_slice(pre);
    for &b in t {
        text::hole(b, &mut o)
    }
    o.extend_from_slice(post);
    vs::string(o)
}

fn input(group: u64) -> String {
    match group {
        0 => {
            let t = FREE[vs::choose(FREE.len())];
            text::fill(t)
        }
        1 => text::edit(BASES[vs::choose(BASES.len())]),
        2 => text::edit(EXT_BASES[vs::choose(EXT_BASES.len())]),
        3 => text::fill(FREE_TOKENS[vs::choose(FREE_TOKENS.len())]),
        4 => string_text(STRINGS[vs::choose(STRINGS.len())], PLACES[[0, 2][vs::choose(2)]]),
        5 => match vs::choose(4) {
            0 => number_text(INTS[vs::choose(INTS.len())], INDEXES[vs::choose(5)]),
            1 => number_text(INTS[vs::choose(INTS.len())], NUMBERS[0]),
            2 => number_text(FRACS[vs::choose(FRACS.len())], NUMBERS[0]),
            _ => number_text(EXPS[vs::choose(EXPS.len())], NUMBERS[0]),
        },
        6 => logic(),
        7 => standard_call(),
        8 => big(),
        // for printing: the digits are enumerated
        9 => number_text(SMALL[vs::choose(SMALL.len())], [NUMBERS[0], INDEXES[0], INDEXES[3], INDEXES[6]][vs::choose(4)]),
        10 => {
            if vs::choose(2) == 0 {
                string_text(STRINGS[vs::choose(STRINGS.len())], PLACES[0])
            } else {
                string_text(PRINTED[vs::choose(PRINTED.len())], PLACES[2])
            }
        }
        _ => panic!("no such group"),
    }
}

/// C01: a query or an error with a message, never a panic or a hang.
pub fn c01(p: u64) {
    let k = (p % 8) as usize;
    warm(k);
    vs::begin();
    let s = input(p / 8);
    vs::note(&s);
    match conv::parse_or_msg(k, &s) {
        Ok(()) => {
            vs::note("accepted");
            vs::cover(1)
        }
        Err(m) => {
            vs::note("error");
            vs::check(!m.is_empty(), "an error without a message");
            vs::cover(2)
        }
    }
}

/// C02 (pest-based crates) and C03 (hand-crafted crate): acceptance.
pub fn accept(p: u64) {
    let k = (p % 8) as usize;
    warm(k);
    let sigs = rfc::standard();
    vs::begin();
    let s = input(p / 8);
    vs::note(&s);
    let got = conv::accepts(k, &s);
    vs::note(if got { "accepted" } else { "rejected" });
    let (want, low_u) = rfc::parse2(&s, k == SING, &sigs, false);
    let want = want.is_some();
    if k == HAND && low_u {
        vs::known("hand-low-u")
    }
    vs::cover(got as u32 + 1);
    if k == HAND && got && !want && rfc::parse2(&s, false, &sigs, true).0.is_some() {
        vs::known("hand-singular-blank")
    }
    if got {
        vs::check(want, "accepted a text that RFC 9535 does not allow");
    } else {
        vs::check(!want, "rejected a valid RFC 9535 query");
    }
}

/// C04: the tree.
pub fn tree(p: u64) {
    let k = (p % 8) as usize;
    warm(k);
    let sigs = rfc::standard();
    vs::begin();
    let s = input(p / 8);
    vs::note(&s);
    let got = conv::tree(k, &s);
    let Some(got) = got else {
        vs::cover(1);
        return;
    };
    let Some(want) = rfc::parse(&s, k == SING, &sigs) else {
        vs::cover(2);
        return;
    };
    vs::cover(3);
    match rfc::diff(&got, &want) {
        None => {}
        Some(m) => vs::fail(m),
    }
}

/// C05: print, parse again.
pub fn print(p: u64) {
    let k = (p % 8) as usize;
    warm(k);
    vs::begin();
    let s = input(p / 8);
    // printing a floating point number is not symbolic: its digits are
    // enumerated
    text::fix_digits(&s);
    vs::note(&s);
    let Some(a) = conv::parsed(k, &s) else {
        vs::cover(1);
        return;
    };
    vs::note(&a.text);
    if k < conv::SERDE && rfc::awkward_literal(&a.tree) {
        vs::known("unescaped-literal")
    }
    let Some(b) = conv::parsed(k, &a.text) else { vs::fail("the printed form is not accepted") };
    vs::cover(2);
    match rfc::diff(&a.tree, &b.tree) {
        None => {}
        Some(_) => vs::fail("the printed form denotes a different query"),
    }
    vs::check(a.text == b.text, "printing again gives a different text");
}

// ------------------------------------------------------------------------ C06

/// Contents of string literals (q stands for the quote, Q for the other one).
static STRINGS: &[&[u8]] = &[
    b"\\u\x04\x04\x04\x04",
    b"\\u\x02\x02\x04\x04",
    b"\\u\x04\x04\x02\x02",
    b"\\u\x04\x04\x04\x02\x02",
    b"a\\u\x04\x04\x04\x04b",
    b"\\\x02\x02\x02",
    b"\x02\\\x02",
    b"\\\x02\\\x02",
    b"\x01\x01",
    b"\x07\x02\x07",
    b"\\d83d",
    b"\\ud83d\x02\x02",
    b"\\ud83d\\\x02\x02",
    b"\\ud83d\\u\x02\x02\x02",
    b"\\ud83dx\\ude00\x02",
    b"\\n\\t\x02",
    b"q\x02",
    b"Q\x02",
    b"\\q\x02\\Q",
    b"\\\\\x02",
    b"\\\\\\\x02",
    b"\\/\x02",
    b"\\U\x04\x04\x04\x04",
    b"\\u\x04\x04\x04",
    b"\\u{\x04\x04}",
    b"",
];
/// Contents of string literals without free hexadecimal digits.
static PRINTED: &[&[u8]] = &[b"\\\x02\x02", b"\x01\x01", b"\x07\x02\x07", b"\\u00e9\x02", b"\\ud83d\\ude00\x02", b"\\u0007\x02", b"Q\x02", b"\\q\x02", b"\\\\\x02", b""];
/// Two escapes with free digits.
static PAIRS: &[&[u8]] = &[
    b"\\ud\x048\x04\\ud\x04\x040",
    b"\\ud8\x04\x04\\udc\x04\x04",
    b"\\uD\x0400\\u\x04\x040F",
    b"\\uD\x04\x04\x04\\uD\x04\x04\x04",
    b"\\u\x04\x04\x04\x04\\u\x04\x04\x04\x04",
];

/// Where a string literal may stand.
static PLACES: &[(&[u8], &[u8])] = &[
    (b"$[", b"]"),
    (b"$..['a',", b"]"),
    (b"$[?@.a==", b"]"),
    (b"$[?", b"<@['b']]"),
    (b"$[?match(@,", b")]"),
    (b"$[?@[", b"]>1]"),
];

/// Groups: 0 member names, 1 the other places, 2.. two escapes with free digits.
pub fn c06(p: u64) {
    let k = (p % 8) as usize;
    warm(k);
    let sigs = rfc::standard();
    vs::begin();
    let (pre, post) = match p / 8 {
        1 => PLACES[1 + vs::choose(PLACES.len() - 1)],
        _ => PLACES[0],
    };
    let t = match p / 8 {
        g @ 2.. => PAIRS[g as usize - 2],
        _ => STRINGS[vs::choose(STRINGS.len())],
    };
    same_tree(k, &sigs, &string_text(t, (pre, post)))
}

/// Accepted exactly if RFC 9535 says so, and with the same tree.
fn same_tree(k: usize, sigs: &[rfc::Sig], s: &str) {
    vs::note(s);
    let got = conv::tree(k, s);
    verdict(k, sigs, s, got)
}

fn verdict(k: usize, sigs: &[rfc::Sig], s: &str, got: Option<rfc::Query>) {
    let (want, low_u) = rfc::parse2(s, k == SING, sigs, false);
    if k == HAND && low_u {
        vs::known("hand-low-u")
    }
    match (got, want) {
        (None, None) => vs::cover(1),
        // a known finding of C03
        (Some(_), None) if k == HAND && rfc::parse2(s, false, sigs, true).0.is_some() => {}
        (Some(_), None) => vs::fail("accepted a text that RFC 9535 does not allow"),
        (None, Some(_)) => vs::fail("rejected a valid RFC 9535 query"),
        (Some(a), Some(b)) => {
            vs::cover(2);
            if let Some(m) = rfc::diff(&a, &b) {
                vs::fail(m)
            }
        }
    }
}

// ------------------------------------------------------------------------ C07

static INTS: &[&[u8]] = &[
    b"\x03",
    b"-\x03",
    b"\x03\x03",
    b"-\x03\x03",
    b"\x0e\x03\x03\x03",
    b"-\x0e\x03\x03\x03",
    b"\x0e\x03\x03\x03\x03\x03\x03\x03\x03\x03\x03\x03\x03\x03\x03",
    b"-\x0e\x03\x03\x03\x03\x03\x03\x03\x03\x03\x03\x03\x03\x03\x03",
    b"9007199254740\x03\x03\x03",
    b"-900719925474\x03\x03\x03\x03",
    b"900719925474099\x03\x03",
    b"92233720368547758\x03\x03",
    b"-92233720368547758\x03\x03",
    b"922337203685477580\x03\x03",
    b"184467440737095516\x03\x03",
    b"1000000000000000000000\x03",
    b"+\x03",
    b"--\x03",
    b"\x02\x03",
    b"-\x02\x03",
    b"\x03_\x03",
];
static FRACS: &[&[u8]] = &[
    b"\x03.\x03",
    b"-\x03.\x03",
    b"\x03.\x03\x03",
    b"0.0\x03\x03",
    b"\x0e\x03.0",
    b"-0.0\x03",
    b".\x03",
    b"\x03.",
    b"\x03.\x02",
    b"\x03.-\x03",
    b"\x03..\x03",
    b"9007199254740993.\x03",
    b"0.1000000000000000055511151231257827\x03",
];
static EXPS: &[&[u8]] = &[
    b"\x03e\x03",
    b"\x03E\x03",
    b"-\x03e\x03",
    b"\x03e-\x03",
    b"-\x03E-\x03",
    b"\x03e+\x03",
    b"\x03e\x0f\x0f",
    b"\x03e-\x0f\x0f",
    b"\x03.\x03e\x03",
    b"-\x03.\x03e-\x03",
    b"\x0e0e-\x03",
    b"\x0e00e-\x03",
    b"\x03e0\x03",
    b"1e\x0f\x0f\x0f",
    b"-1e\x0f\x0f\x0f",
    b"1e-\x0f\x0f\x0f",
    b"\x03e",
    b"\x03e+",
    b"\x03e-",
    b"\x03e\x02",
    b"\x03e\x02\x0f",
    b"\x03e1.\x03",
    b"e\x03",
    b"-e\x03",
];
/// Numbers whose digits are enumerated.
static SMALL: &[&[u8]] = &[
    b"\x0f",
    b"-\x0f",
    b"\x0f\x0f",
    b"-\x0f\x0f\x0f",
    b"900719925474099\x0f",
    b"-900719925474099\x0f",
    b"900719925474099\x0f\x0f",
    b"\x0f.\x0f",
    b"-\x0f.\x0f",
    b"0.0\x0f\x0f",
    b"\x0f\x0f.\x0f0",
    b"\x0fe\x0f",
    b"\x0f.\x0fe-\x0f",
    b"-\x0f.\x0fE+\x0f",
    b"1e\x0f\x0f\x0f",
    b"-1e-\x0f\x0f\x0f",
    b"1.7976931348623157e30\x0f",
    b"4.9e-32\x0f",
    b"0.1000000000000000055511151231257827\x0f",
    b"123456789012345678901234567890\x0f",
];
static INDEXES: &[(&[u8], &[u8])] = &[(b"$[", b"]"), (b"$[", b":]"), (b"$[:", b"]"), (b"$[::", b"]"), (b"$[1:2:", b"]"), (b"$[?@[", b"]]"), (b"$[?@[", b"]==1]")];
static NUMBERS: &[(&[u8], &[u8])] = &[(b"$[?@==", b"]"), (b"$[?", b"<@]"), (b"$[?length(", b")>@]")];

/// Groups: 0 integers, 1 fractions, 2 exponents, 3 indices and slice bounds, 4
/// the other places of 0 to 2.
pub fn c07(p: u64) {
    let k = (p % 8) as usize;
    warm(k);
    let sigs = rfc::standard();
    vs::begin();
    let g = p / 8;
    let t = match if g == 4 { vs::choose(3) as u64 } else { g } {
        1 => FRACS[vs::choose(FRACS.len())],
        2 => EXPS[vs::choose(EXPS.len())],
        x @ 10.. => EXPS[x as usize - 10],
        _ => INTS[vs::choose(INTS.len())],
    };
    let (pre, post) = match g {
        3 => INDEXES[vs::choose(INDEXES.len())],
        4 => NUMBERS[1 + vs::choose(NUMBERS.len() - 1)],
        _ => NUMBERS[0],
    };
    same_tree(k, &sigs, &number_text(t, (pre, post)))
}

// ------------------------------------------------------------------------ C08

static CALLS: &[&[u8]] = &[
    b"$[?#]",
    b"$[?!#]",
    b"$[?(#)]",
    b"$[?!(#)]",
    b"$[?#==1]",
    b"$[?'a'<#]",
    b"$[?#!=@.a]",
    b"$[?(#>=$.b)]",
    b"$[?#==#]",
    b"$[?#&&@.a]",
    b"$[?@.a||!#]",
    b"$[?@[?#]]",
    b"$[?vv(#)==1]",
    b"$[?vl(#)==1]",
    b"$[?vn(#)==1]",
    b"$[?ll(#)]",
];
static FREE_CALLS: [&[u8]; 2] = [b"$[?#]", b"$[?#==1]"];
static ARGS: &[&[u8]] = &[
    b"@",
    b"$",
    b"@.a",
    b"$['a'][0]",
    b"@.*",
    b"$..a",
    b"@[0,1]",
    b"@[1:2]",
    b"@[?@.b]",
    b"1",
    b"-1.5e3",
    b"'s'",
    b"\"\"",
    b"true",
    b"false",
    b"null",
    b"@.a==1",
    b"1==@.a",
    b"1==1",
    b"@.a==@.*",
    b"@.a&&@.b",
    b"@.*||$.b",
    b"@.a&&1",
    b"!@.a",
    b"!1",
    b"(@.a)",
    b"((@.*))",
    b"(1)",
    b"!(@.a)",
    b"(@.a==1)",
    b"zl()",
    b"zn()",
    b"zv()",
    b"!zl()",
    b"!zn()",
    b"!zv()",
    b"(zl())",
    b"(zn())",
    b"(zv())",
    b"zl()==1",
    b"zn()==1",
    b"zv()==1",
    b"zl()&&@.a",
    b"zn()||@.a",
    b"zv()&&@.a",
    b"@==zv()",
    b"length(@)",
    b"count(@.*)",
    b"value(@..a)",
    b"match(@,'a')",
    b"search(@,'a')&&@",
];
/// One argument of each kind.
static KINDS: &[&[u8]] = &[b"@.a", b"@.*", b"1", b"@==1", b"zl()", b"zn()", b"zv()", b"(@)", b"!@.*"];

/// Any of the three types: the type itself is symbolic.
fn any_ty() -> rfc::Ty {
    let b = vs::byte(0, 2);
    // three variants, numbered 0 to 2
    unsafe { std::mem::transmute::<u8, rfc::Ty>(b) }
}

/// Well-typed function calls, whatever the registered types are.
pub fn c08(p: u64) {
    use rfc::Ty::*;
    let k = (p % 8) as usize;
    warm(k);
    vs::begin();
    let sig = |n: &str, params: &[rfc::Ty], ret| rfc::Sig { name: n.to_string(), params: params.to_vec(), ret };
    let mut sigs = vec![
        sig("vv", &[Value], Value),
        sig("vl", &[Logical], Value),
        sig("vn", &[Nodes], Value),
        sig("ll", &[Logical], Logical),
        sig("zl", &[], Logical),
        sig("zn", &[], Nodes),
        sig("zv", &[], Value),
    ];
    let mut o: Vec<u8> = Vec::with_capacity(96);
    let mut add = false;
    let call: Vec<u8>;
    let mut ctx = CALLS;
    match p / 8 {
        // one character away from nested calls
        6 => {
            static CALL_BASES: &[&[u8]] = &[
                b"f(g(@.a,zl()),!h( $..b ))",
                b"f(@.*, g('x', 1) || h(zn()))",
                b"!f((@.a), (g(@,@)))",
                b"f( h(1)==g(@.a,zv()), 'a')",
            ];
            let s = text::edit(CALL_BASES[vs::choose(CALL_BASES.len())]);
            call = s.into_bytes();
            sigs.push(sig("f", &[any_ty(), any_ty()], any_ty()));
            sigs.push(sig("g", &[any_ty(), any_ty()], any_ty()));
            sigs.push(sig("h", &[any_ty()], any_ty()));
            ctx = &FREE_CALLS[..1];
        }
        // one parameter: every argument
        0 => {
            let a = ARGS[vs::choose(ARGS.len())];
            call = [b"f(", a, b")"].concat();
            sigs.push(sig("f", &[any_ty()], any_ty()));
        }
        // two parameters
        1 => {
            let a = ARGS[vs::choose(ARGS.len())];
            let b = ARGS[vs::choose(ARGS.len())];
            call = [b"g_2(", a, b" , ", b, b")"].concat();
            sigs.push(sig("g_2", &[any_ty(), any_ty()], any_ty()));
            ctx = &CALLS[..5];
        }
        // the number of arguments
        2 => {
            let n = vs::choose(4);
            let name: &[u8] = [&b"f"[..], b"length", b"count", b"value", b"match", b"search", b"nosuch"][vs::choose(7)];
            let a = KINDS[vs::choose(3)];
            let mut t = [name, b"("].concat();
            for i in 0..n {
                if i > 0 {
                    t.push(b',')
                }
                t.extend_from_slice(a)
            }
            t.push(b')');
            call = t;
            let m = vs::choose(4);
            let params: Vec<rfc::Ty> = (0..m).map(|_| any_ty()).collect();
            sigs.push(sig("f", &params, any_ty()));
            ctx = &CALLS[..5];
        }
        // a function of the user's in place of a standard one
        3 => {
            let name = ["length", "count", "value", "match", "search"][vs::choose(5)];
            let a = KINDS[vs::choose(KINDS.len())];
            call = [name.as_bytes(), b"(", a, b")"].concat();
            sigs.push(sig(name, &[any_ty()], any_ty()));
            ctx = &CALLS[..5];
        }
        // through add_function
        4 => {
            let a = KINDS[vs::choose(KINDS.len())];
            let n = vs::choose(3);
            let mut t = b"f(".to_vec();
            for i in 0..n {
                if i > 0 {
                    t.push(b',')
                }
                t.extend_from_slice(a)
            }
            t.push(b')');
            call = t;
            let m = vs::choose(3);
            let params: Vec<rfc::Ty> = (0..m).map(|_| any_ty()).collect();
            sigs = vec![sig("f", &params, any_ty()), sig("zl", &[], Logical), sig("zn", &[], Nodes), sig("zv", &[], Value)];
            sigs.truncate(1);
            ctx = &CALLS[..5];
            add = true;
        }
        // free characters in the name and around the arguments
        _ => {
            let t: &[u8] = [&b"\x02\x02(@.a)"[..], b"f\x02(@)", b"\x02f(@)", b"f(\x02\x02)", b"f(@\x02\x02)", b"f(@.a\x02\x02@)", b"g_2(@\x02\x021)", b"f\x02\x02@)", b"f(@)\x02"][vs::choose(9)];
            let mut c = vec![];
            for &b in t {
                text::hole(b, &mut c)
            }
            call = c;
            sigs.push(sig("f", &[any_ty()], any_ty()));
            sigs.push(sig("fa", &[any_ty()], any_ty()));
            sigs.push(sig("f1", &[any_ty()], any_ty()));
            sigs.push(sig("g_2", &[any_ty(), any_ty()], any_ty()));
            ctx = &FREE_CALLS;
        }
    }
    for &b in ctx[vs::choose(ctx.len())] {
        match b {
            b'#' => o.extend_from_slice(&call),
            _ => o.push(b),
        }
    }
    let s = vs::string(o);
    vs::note(&s);
    let got = if add { conv::tree_added(k, &s, &sigs[0].name, &sigs[0].params, sigs[0].ret) } else { conv::tree_with(k, &s, &sigs) };
    let mut all: Vec<rfc::Sig> = sigs;
    all.extend(rfc::standard());
    verdict(k, &all, &s, got)
}

// ------------------------------------------------------------------------ C09

static FREE_TOKENS: &[&[u8]] = &[
    b"$.\x01\x01 . a",
    b"$['\x01\x01'].b",
    b"$[?@['\x01\\\x02']]",
    b"$[?@==\"\x01\" && \x02\x02]",
    b"$[ 1\x02\x02, 'a']",
    b"$[?f\x02(\x02\x02)]",
    b"$[?@.\x01\x02\x02]",
    b"$..\x01\x02\x02",
    b"$[?@\x02\x02\x02]",
    b"$[?1\x02\x02\x02]",
    b"$[?(\x02\x02\x02]",
    b"$[?'\x02\x02\x02]",
];

/// Tokens are in order, in range and carry their text; errors lie in the text.
pub fn c09(p: u64) {
    use hand::token::TokenType as T;
    warm(HAND);
    vs::begin();
    let s = input(p);
    vs::note(&s);
    let b = s.as_bytes();
    let inside = |(i, j): (usize, usize)| i <= j && j <= b.len() && s.is_char_boundary(i) && s.is_char_boundary(j);
    let toks = hand::lexer::tokenize(&s);
    vs::check(!toks.is_empty(), "no tokens");
    let n = toks.len();
    let mut at = 0;
    let mut lexed = true;
    for (i, t) in toks.iter().enumerate() {
        vs::check(inside(t.span), "a token's span is not a piece of the text");
        let (x, y) = t.span;
        vs::check(x >= at, "two tokens overlap or are out of order");
        let piece = &s[x..y];
        let fixed = match &t.kind {
            T::Eoq => {
                vs::check(i + 1 == n, "an end of query in the middle of the tokens");
                vs::check(x == b.len(), "the end of query is not at the end of the text");
                ""
            }
            T::Error { msg } => {
                vs::check(i + 1 == n, "tokens after an error");
                vs::check(!msg.is_empty(), "an error without a message");
                lexed = false;
                break;
            }
            T::Index { value } | T::Name { value } | T::Float { value } | T::Int { value } | T::DoubleQuoteString { value } | T::SingleQuoteString { value } => value,
            T::Function { name } => name,
            T::Colon => ":",
            T::Comma => ",",
            T::DoubleDot => "..",
            T::Filter => "?",
            T::LBracket => "[",
            T::RBracket => "]",
            T::Root => "$",
            T::Wild => "*",
            T::And => "&&",
            T::Current => "@",
            T::Eq => "==",
            T::False => "false",
            T::Ge => ">=",
            T::Gt => ">",
            T::Le => "<=",
            T::LParen => "(",
            T::Lt => "<",
            T::Ne => "!=",
            T::Not => "!",
            T::Null => "null",
            T::Or => "||",
            T::RParen => ")",
            T::True => "true",
        };
        vs::check(piece == fixed, "a token does not carry the text of its span");
        // nothing but blanks, dots, quotes and a call's parenthesis between tokens
        for &c in &b[at..x] {
            vs::check(matches!(c, b' ' | b'\t' | b'\n' | b'\r' | b'.' | b'\'' | b'"' | b'('), "text between two tokens belongs to no token");
        }
        at = y;
    }
    vs::check(!lexed || matches!(toks[n - 1].kind, T::Eoq), "the tokens do not end with the end of the query");
    match hand::lexer::lex(&s) {
        Ok(t) => vs::check(lexed && t == toks, "lex() and tokenize() differ"),
        Err(e) => vs::check(!lexed && e.span == toks[n - 1].span, "lex() and tokenize() differ"),
    }
    match hand::Query::standard(&s) {
        Ok(q) => {
            vs::cover(1);
            vs::check(lexed, "accepted in spite of a lexical error");
            spans(&q.segments, &inside);
        }
        Err(e) => {
            vs::cover(2);
            vs::check(inside(e.span), "the position of an error is not in the text");
            vs::check(lexed || e.span == toks[n - 1].span, "a lexical error is reported at another place");
        }
    }
}

fn spans(segs: &[hand::query::Segment], inside: &dyn Fn((usize, usize)) -> bool) {
    use hand::query::{FilterExpression as F, Segment, Selector};
    fn expr(e: &F, inside: &dyn Fn((usize, usize)) -> bool) {
        vs::check(inside(e.span()), "an expression's span is not in the text");
        match e {
            F::Not { expression, .. } => expr(expression, inside),
            F::Logical { left, right, .. } | F::Comparison { left, right, .. } => {
                expr(left, inside);
                expr(right, inside)
            }
            F::RelativeQuery { query, .. } | F::RootQuery { query, .. } => spans(&query.segments, inside),
            F::Function { args, .. } => args.iter().for_each(|a| expr(a, inside)),
            _ => {}
        }
    }
    for s in segs {
        let (sp, sels) = match s {
            Segment::Child { span, selectors } | Segment::Recursive { span, selectors } => (*span, selectors),
        };
        vs::check(inside(sp), "a segment's span is not in the text");
        for s in sels {
            let sp = match s {
                Selector::Name { span, .. } | Selector::Index { span, .. } | Selector::Slice { span, .. } | Selector::Wild { span } => *span,
                Selector::Filter { span, expression } => {
                    expr(expression, inside);
                    *span
                }
            };
            vs::check(inside(sp), "a selector's span is not in the text");
        }
    }
}
