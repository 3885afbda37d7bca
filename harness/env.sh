export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= 
export pnpm_config_offline=true pnpm_config_fetch_retries=0
export CARGO_TARGET_DIR=/verif/target
