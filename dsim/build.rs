use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=rt/rt.h");
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| {
        let st = c.status().expect("cannot start the C toolchain");
        assert!(st.success(), "{c:?} failed");
    };
    run(Command::new("gcc").args([
        "-O2", "-g", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fno-stack-protector", "-fno-pic", "-fno-pie", "-D_FORTIFY_SOURCE=0",
        "-c", "rt/rt.c", "-o", &format!("{out}/rt.o"),
    ]));
    // struct copies the compiler turned into library calls must not come back into the checked wrappers
    let mut oc = Command::new("objcopy");
    for f in ["memcpy", "memmove", "memset"] {
        oc.arg(format!("--redefine-sym={f}=__real_{f}"));
    }
    run(oc.arg(format!("{out}/rt.o")));
    let _ = std::fs::remove_file(format!("{out}/libdsimrt.a"));
    run(Command::new("ar").args(["crs", &format!("{out}/libdsimrt.a"), &format!("{out}/rt.o")]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=dsimrt");
    for f in ["memcpy", "memmove", "memset", "memcmp", "bcmp"] {
        println!("cargo:rustc-link-arg=-Wl,--wrap={f}");
    }
}
