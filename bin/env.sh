export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=ethnum
