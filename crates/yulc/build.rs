// Generates the parser from the synced yul.lalrpop, as the repository's own build.rs does.
fn main() {
    let src = "../../build/tree/src";
    println!("cargo:rerun-if-changed={src}/yul.lalrpop");
    println!("cargo:rustc-env=GIT_HASH=verif");
    lalrpop::Configuration::new().set_in_dir(src).set_out_dir(std::env::var("OUT_DIR").unwrap()).process().unwrap();
}
