// Compiles the simulator runtime and links it into every binary.
fn main() {
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let out = std::env::var("OUT_DIR").unwrap();
    let src = format!("{dir}/rt/simrt.c");
    let obj = format!("{out}/simrt.o");
    let st = std::process::Command::new("gcc")
        .args(["-O2", "-g1", "-fPIC", "-c", &src, "-o", &obj])
        .status()
        .expect("gcc");
    assert!(st.success(), "simrt.c does not compile");
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bins={obj}");
}
