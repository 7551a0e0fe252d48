fn main() {
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-lib=dylib=m");
}
