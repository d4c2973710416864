fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-check-cfg=cfg(verif_hooks)");
    println!("cargo:rustc-cfg=verif_hooks");
}
