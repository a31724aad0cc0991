fn main() {
    for k in ["VERGEN_GIT_SHA", "VERGEN_GIT_COMMIT_DATE", "VERGEN_GIT_DIRTY"] {
        println!("cargo:rustc-env={k}=none");
    }
}
