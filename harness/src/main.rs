mod conv;
mod eval;
mod evalh;
mod evalx;
mod ire;
mod listh;
mod mk;
mod regexh;
mod rfc;
mod scale;
mod syntax;
mod text;
mod vs;

#[no_mangle]
#[inline(never)]
pub extern "C" fn vs_entry(h: u64, p: u64) {
    match h {
        1 => syntax::c01(p),
        2 | 3 => syntax::accept(p),
        4 => syntax::tree(p),
        5 => syntax::print(p),
        6 => syntax::c06(p),
        7 => syntax::c07(p),
        8 => syntax::c08(p),
        9 => syntax::c09(p),
        10 => evalh::c10(p),
        11 => evalh::c11(p),
        12 => evalh::c12(p),
        13 => evalh::c13(p),
        14 => evalh::c14(p),
        15 => regexh::c15(p),
        16 => evalh::c16(p),
        17 => listh::c17(p),
        18 => evalx::c18(p),
        19 => evalx::c19(p),
        20 => evalx::c20(p),
        21 => evalx::c21(p),
        _ => panic!("no such harness"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = a[1].parse().unwrap();
    let p = a[2].parse().unwrap();
    vs::set_inputs(a[3..].iter().map(|x| x.parse().unwrap()).collect());
    vs_entry(h, p);
    println!("END");
}
