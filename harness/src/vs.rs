//! The interface between the harnesses and the symbolic executor.  The engine
//! intercepts these functions by name; the bodies here are the native
//! implementation used to replay one assignment of the variables.
use std::hint::black_box;
use std::io::Write;
use std::sync::Mutex;

static INPUTS: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));

/// Native only: the values of the variables in the order of their creation.
pub fn set_inputs(v: Vec<u64>) {
    *INPUTS.lock().unwrap() = (v, 0);
}

fn out(tag: &str, b: &[u8]) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(tag.as_bytes());
    for x in b {
        let _ = write!(o, "{:02x}", x);
    }
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn __vs_var(bits: u32, lo: u64, hi: u64) -> u64 {
    let mut g = INPUTS.lock().unwrap();
    let i = g.1;
    g.1 += 1;
    let v = g.0.get(i).copied().unwrap_or(lo);
    if v < lo || v > hi || bits > 64 {
        println!("BADINPUT {i} {v} {lo} {hi}");
        std::process::exit(78);
    }
    black_box(v)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vs_assume(b: bool) {
    if !black_box(b) {
        println!("ASSUME");
        std::process::exit(77);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vs_check(b: bool, p: *const u8, n: usize) {
    if !black_box(b) {
        __vs_fail(p, n);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vs_fail(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(black_box(p), black_box(n)) };
    println!("VIOLATED {}", String::from_utf8_lossy(s));
    std::process::exit(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vs_note(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(black_box(p), black_box(n)) };
    out("NOTE ", s);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vs_cover(i: u32) {
    black_box(i);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vs_conc(v: u64) -> u64 {
    black_box(v)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vs_begin() {
    black_box(0);
}

/// From here on this path is of the class of inputs a known finding names.
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vs_known(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(black_box(p), black_box(n)) };
    println!("KNOWN {}", String::from_utf8_lossy(s));
}

/// How deep the stack is: in bytes, or 64 for each call.
#[no_mangle]
#[inline(never)]
pub extern "C" fn __vs_depth() -> u64 {
    let x = 0u8;
    0u64.wrapping_sub(black_box(&x) as *const u8 as u64)
}

// ------------------------------------------------------------- convenience
pub fn known(m: &str) {
    __vs_known(m.as_ptr(), m.len())
}

/// A fresh 8-bit variable in `lo..=hi`.
#[inline(never)]
pub fn byte(lo: u8, hi: u8) -> u8 {
    __vs_var(8, lo as u64, hi as u64) as u8
}
/// A fresh 64-bit variable.
pub fn word() -> u64 {
    __vs_var(64, 0, u64::MAX)
}
pub fn word_in(lo: u64, hi: u64) -> u64 {
    __vs_var(64, lo, hi)
}
/// One of `n` alternatives, explored separately.
#[inline(never)]
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    __vs_conc(__vs_var(8, 0, n as u64 - 1)) as usize
}
pub fn conc(v: u64) -> u64 {
    __vs_conc(v)
}
pub fn assume(b: bool) {
    __vs_assume(b)
}
#[inline(never)]
pub fn check(b: bool, m: &str) {
    __vs_check(b, m.as_ptr(), m.len())
}
#[inline(never)]
pub fn fail(m: &str) -> ! {
    __vs_fail(m.as_ptr(), m.len());
    loop {}
}
/// Recorded for counterexamples and compared with the native replay.
pub fn note(m: &str) {
    __vs_note(m.as_ptr(), m.len())
}
pub fn note_bytes(m: &[u8]) {
    __vs_note(m.as_ptr(), m.len())
}
pub fn cover(i: u32) {
    __vs_cover(i)
}
pub fn depth() -> u64 {
    __vs_depth()
}
pub fn begin() {
    __vs_begin()
}

/// One symbolic Unicode scalar value, appended as UTF-8.  The nine rows of
/// the table of well-formed byte sequences are explored separately; within a
/// row the bytes are independent variables.
#[inline(never)]
pub fn scalar(out: &mut Vec<u8>) {
    let c = |o: &mut Vec<u8>, lo, hi| o.push(byte(lo, hi));
    match choose(9) {
        0 => c(out, 0x00, 0x7f),
        1 => {
            c(out, 0xc2, 0xdf);
            c(out, 0x80, 0xbf)
        }
        2 => {
            out.push(0xe0);
            c(out, 0xa0, 0xbf);
            c(out, 0x80, 0xbf)
        }
        3 => {
            c(out, 0xe1, 0xec);
            c(out, 0x80, 0xbf);
            c(out, 0x80, 0xbf)
        }
        4 => {
            out.push(0xed);
            c(out, 0x80, 0x9f);
            c(out, 0x80, 0xbf)
        }
        5 => {
            c(out, 0xee, 0xef);
            c(out, 0x80, 0xbf);
            c(out, 0x80, 0xbf)
        }
        6 => {
            out.push(0xf0);
            c(out, 0x90, 0xbf);
            c(out, 0x80, 0xbf);
            c(out, 0x80, 0xbf)
        }
        7 => {
            c(out, 0xf1, 0xf3);
            c(out, 0x80, 0xbf);
            c(out, 0x80, 0xbf);
            c(out, 0x80, 0xbf)
        }
        _ => {
            out.push(0xf4);
            c(out, 0x80, 0x8f);
            c(out, 0x80, 0xbf);
            c(out, 0x80, 0xbf)
        }
    }
}
/// One symbolic ASCII character.
pub fn ascii(out: &mut Vec<u8>) {
    out.push(byte(0, 0x7f));
}
pub fn string(b: Vec<u8>) -> String {
    // every byte sequence built above is well-formed UTF-8
    unsafe { String::from_utf8_unchecked(b) }
}
