fn main() {
    // libz3 of the sandbox (apt package libz3-dev 4.8.12)
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rerun-if-changed=build.rs");
}
