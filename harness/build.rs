// two versions of neutron-sdk (0.8 and 0.9) export the same marker symbol
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg=-Wl,--allow-multiple-definition");
}
