fn main() {
    println!("cargo:rustc-env=GIT_HASH=verif");
    println!("cargo:rerun-if-changed=src");
    lalrpop::Configuration::new().use_cargo_dir_conventions().process().unwrap();
}
