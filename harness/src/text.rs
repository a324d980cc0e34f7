//! Query texts with symbolic holes.
use crate::vs;

/// Holes: \x01 any Unicode scalar, \x02 any ASCII character, \x03 a decimal
/// digit, \x04 a hexadecimal digit, \x05 an optional blank, \x06 a comparison
/// operator, \x07 any scalar of four representative UTF-8 rows, \x08 an
/// ASCII letter or digit or underscore, \x0e a non-zero digit, \x0f a digit
/// whose values are explored separately.
#[inline(never)]
pub fn fill(t: &[u8]) -> String {
    let mut o: Vec<u8> = Vec::with_capacity(96);
    for &b in t {
        hole(b, &mut o);
    }
    vs::string(o)
}

pub fn hole(b: u8, o: &mut Vec<u8>) {
    match b {
        1 => vs::scalar(o),
        2 => vs::ascii(o),
        3 => o.push(vs::byte(b'0', b'9')),
        0x0e => o.push(vs::byte(b'1', b'9')),
        0x0f => o.push(vs::conc(vs::byte(b'0', b'9') as u64) as u8),
        4 => {
            let c = vs::byte(b'0', b'f');
            vs::assume((c <= b'9') | ((c >= b'A') & (c <= b'F')) | (c >= b'a'));
            o.push(c)
        }
        5 => {
            if vs::choose(2) == 1 {
                let c = vs::byte(9, 0x20);
                vs::assume((c == 9) | (c == 10) | (c == 13) | (c == 0x20));
                o.push(c)
            }
        }
        6 => o.extend_from_slice([&b"=="[..], b"!=", b"<", b">", b"<=", b">="][vs::choose(6)]),
        7 => scalar4(o),
        8 => {
            let c = vs::byte(b'0', b'z');
            vs::assume((c <= b'9') | ((c >= b'A') & (c <= b'Z')) | (c >= b'a') | (c == b'_'));
            o.push(c)
        }
        _ => o.push(b),
    }
}

/// A scalar from the rows 00..7f, c2..df, e1..ec and f1..f3.
#[inline(never)]
pub fn scalar4(out: &mut Vec<u8>) {
    match vs::choose(4) {
        0 => out.push(vs::byte(0, 0x7f)),
        1 => {
            out.push(vs::byte(0xc2, 0xdf));
            out.push(vs::byte(0x80, 0xbf))
        }
        2 => {
            out.push(vs::byte(0xe1, 0xec));
            out.push(vs::byte(0x80, 0xbf));
            out.push(vs::byte(0x80, 0xbf))
        }
        _ => {
            out.push(vs::byte(0xf1, 0xf3));
            out.push(vs::byte(0x80, 0xbf));
            out.push(vs::byte(0x80, 0xbf));
            out.push(vs::byte(0x80, 0xbf))
        }
    }
}

/// Every text one character away from the base: a character inserted,
/// replaced or deleted at any position, or the text cut off there.
#[inline(never)]
pub fn edit(base: &[u8]) -> String {
    // positions are character boundaries
    let mut pos = vec![];
    for (i, &b) in base.iter().enumerate() {
        if b & 0xc0 != 0x80 {
            pos.push(i)
        }
    }
    pos.push(base.len());
    let k = vs::choose(pos.len());
    let p = pos[k];
    let mut o: Vec<u8> = Vec::with_capacity(96);
    o.extend_from_slice(&base[..p]);
    if k + 1 == pos.len() {
        // at the end there is only insertion (and the base itself)
        if vs::choose(2) == 0 {
            scalar4(&mut o)
        }
        return vs::string(o);
    }
    let n = pos[k + 1];
    match vs::choose(4) {
        0 => {
            scalar4(&mut o);
            o.extend_from_slice(&base[p..])
        }
        1 => {
            scalar4(&mut o);
            o.extend_from_slice(&base[n..])
        }
        2 => o.extend_from_slice(&base[n..]),
        _ => {}
    }
    vs::string(o)
}

/// Queries every grammar production occurs in.
pub static BASES: &[&[u8]] = &[
    b"$",
    b"$.a",
    b"$.ab",
    "$.\u{e9}x".as_bytes(),
    b"$['a']",
    b"$[\"b\"]",
    b"$[0]",
    b"$[10]",
    b"$[-1]",
    b"$[1:2]",
    b"$[1:2:3]",
    b"$[ 1 : 2 : 3 ]",
    b"$[:]",
    b"$[::]",
    b"$[::-1]",
    b"$[0:-1]",
    b"$[*]",
    b"$.*",
    b"$..a",
    b"$..*",
    b"$..['a']",
    b"$..[0,1]",
    b"$['a','b']",
    b"$[ 'a' , 1 ]",
    b"$ .a [0] ..b",
    b"$[*, ?@.a, 1:2]",
    b"$[?@]",
    b"$[?@.a]",
    b"$[?@.a==1]",
    b"$[? @.a == 1 ]",
    b"$[?1==@.a]",
    b"$[?@['a']!='x']",
    b"$[?@[0]<=@[1]]",
    b"$[?$.a>2.5]",
    b"$[?@ .a [0] >= 2 ]",
    b"$[?@==-1.5e-3]",
    b"$[?@==1E+5]",
    b"$[?@==-0]",
    b"$[?@==null]",
    b"$[?true==@]",
    b"$[?@!=false]",
    b"$[?@.a&&@.b]",
    b"$[?@.a || @.b && @.c]",
    b"$[?(@.a||@.b)&&@.c]",
    b"$[?!@.a]",
    b"$[?!(@.a==1)]",
    b"$[?! ( @.a ) ]",
    b"$[?((@.a))]",
    b"$[?'a'<\"b\"]",
    b"$[?count(@.*)>1]",
    b"$[?count($..a)==count(@)]",
    b"$[?length(@.a)==1]",
    b"$[?length('ab')<3]",
    b"$[?length(value($.a))==2]",
    b"$[?match(@.a,'x')]",
    b"$[?!search(@.a,@.b)]",
    b"$[?match( @.a , 'x' ) && @]",
    b"$[?1==value(@..a)]",
    b"$[?@[?@.a>1]]",
    b"$[?@..*]",
    b"$[?@.*]",
    b"$['\\u263a']",
    b"$['\\u00e9']",
    b"$['\\ud83d\\ude00']",
    b"$['\\n\\'']",
    b"$[\"\\\"'\"]",
    b"$[9007199254740991]",
    b"$[-9007199254740991::]",
    b"$[:9007199254740991]",
    b"$[::9007199254740991]",
    // one edit away from well-formed or well-typed
    b"$[?count((@.a))>1]",
    b"$[?length((@.a))>1]",
    b"$[?length(@.*)>1]",
    b"$[?count(1)>1]",
    b"$[?count(@.a,@.b)>1]",
    b"$[?match(@.a)]",
    b"$[?value(@.a)]",
    b"$[?length(@)]",
    b"$[?match(@.a,'x')==true]",
    b"$[?@.*==1]",
    b"$[?@..a==1]",
    b"$[?@[0,1]==1]",
    b"$[?@[0:1]==1]",
    b"$[?foo(@)]",
    b"$[?1]",
    b"$[?'a']",
    b"$[?true]",
    b"$[?(true)]",
    b"$[?@.a==1==2]",
    b"$[?(@.a)==1]",
    b"$[?!@.a==1]",
    b"$[?count(@.a)==(1)]",
    b"$[?length(length(@))==1]",
    b"$[?length(match(@,'a'))==1]",
    b"$[?match(@.*,'a')]",
    b"$[?count(length(@))==1]",
    b"$[?value(value(@))==1]",
    b"$[?length()==1]",
];
pub static EXT_BASES: &[&[u8]] = &[
    b"a",
    b"a.b",
    b"['a'].b",
    b"[0]",
    b"[*]..a",
    "\u{e9}[?@]".as_bytes(),
    b"$[$]",
    b"$[$.a]",
    b"$.a[$['c'][0]]",
    b"$[a]",
    b"$[a.b]",
    b"$[['a'].b]",
    b"$[[0]]",
    b"$[a, $.b]",
    b"$[?@[$.a]]",
    b"$[?@[$.a]==1]",
    b"$[$ .a [0] ]",
    b"$..[b]",
];

/// Every digit of a text with a filter is explored separately.
#[inline(never)]
pub fn fix_digits(s: &str) {
    let b = s.as_bytes();
    let mut filter = false;
    for &c in b {
        if c == b'?' {
            filter = true
        }
        if filter && c >= b'0' && c <= b'9' {
            vs::conc(c as u64);
        }
    }
}
