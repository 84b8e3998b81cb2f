export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
# Checks built without debug assertions (profile rel).
REL="c21 c22 c23 c24 c25 c26"
