fn main() {
    // lets symbols that std looks up at run time resolve to the simulated ones
    println!("cargo:rustc-link-arg=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
