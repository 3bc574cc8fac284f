fn main() {
    // The functions that `exports.rs` exports are looked up by name, as a C program's linker would.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rustc-link-arg-bins=-Wl,--gc-keep-exported");
    println!("cargo:rerun-if-changed=build.rs");
}
