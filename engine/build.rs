fn main() {
    // libz3: the newer of the two installed releases (set VS_OLD_Z3 for the
    // other one, for comparison); only the C API is used.
    println!("cargo:rerun-if-env-changed=VS_OLD_Z3");
    let new = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::env::var_os("VS_OLD_Z3").is_none() && std::path::Path::new(new).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={new}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{new}");
    } else {
        println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
