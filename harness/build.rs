fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bins=/lib/x86_64-linux-gnu/liblzma.so.5");
}
