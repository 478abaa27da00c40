//! Copies /repo/server/src (so that modules of the programs resolve) and appends to each program a public way to
//! enter its private `main`.
use std::{env, fs, path::{Path, PathBuf}};

fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.path().is_dir() { copy(&e.path(), &t) } else { fs::copy(e.path(), t).unwrap(); }
    }
}

fn main() {
    let src = Path::new("/repo/server/src");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let dst = out.join("src");
    let _ = fs::remove_dir_all(&dst);
    copy(src, &dst);
    let mut mods = String::new();
    for name in ["simple", "multi", "async"] {
        let f = dst.join(format!("{}.rs", name));
        let mut s = fs::read_to_string(&f).unwrap();
        s.push_str("\n#[doc(hidden)] #[allow(dead_code)] pub fn __sim_entry() { let _ = main(); }\n");
        fs::write(&f, s).unwrap();
        mods.push_str(&format!("#[path = {:?}] pub mod {}_bin;\n", f, name));
    }
    fs::write(out.join("mods.rs"), mods).unwrap();
    println!("cargo:rerun-if-changed=/repo/server/src");
}
