fn main() {
    // getrandom 0.2 finds `getrandom` with dlsym: export the simulator's definition.
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
}
