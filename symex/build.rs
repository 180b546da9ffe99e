use std::path::Path;
fn main() {
    // Prefer the newer libz3 shipped with the Python tool venv; fall back to the system one.
    let cands = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib", "/usr/lib/x86_64-linux-gnu"];
    for c in cands {
        if Path::new(c).join("libz3.so").exists() {
            println!("cargo:rustc-link-search=native={c}");
            println!("cargo:rustc-link-arg=-Wl,-rpath,{c}");
            break;
        }
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
