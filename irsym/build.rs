fn main() {
    // libz3 4.8.12 (system library) is the deciding solver
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
}
