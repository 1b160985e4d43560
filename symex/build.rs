fn main() {
    // libz3 is a system library of the sandbox (libz3-dev)
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
