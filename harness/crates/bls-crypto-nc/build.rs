// The sources live in /repo; run.sh puts a digest of them in REPO_SRC_HASH, so that any change of
// content rebuilds the crate, whatever the files' time stamps say.
fn main() {
    println!("cargo:rerun-if-env-changed=REPO_SRC_HASH");
    println!("cargo:rustc-env=REPO_SRC_HASH_SEEN={}", std::env::var("REPO_SRC_HASH").unwrap_or_default());
}
