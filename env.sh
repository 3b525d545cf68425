# Build environment of the checks (offline; same toolchain as /repo's own build).
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
