fn main() {
    println!("cargo:rustc-env=GIT_SHA=none");
}
