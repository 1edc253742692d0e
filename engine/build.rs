fn main() {
    // libz3 as shipped by libz3-dev
    println!("cargo:rustc-link-lib=dylib=z3");
}
