export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="-C target-cpu=x86-64" CARGO_TARGET_DIR=/verif/target
