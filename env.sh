# Sourced by the checks.
export PATH="$PATH:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$VERIF_DIR/.build"
# cargo decides by modification time whether the library has to be rebuilt; decide by content instead
sync_sources() {
  local h stamp=$CARGO_TARGET_DIR/.sources
  mkdir -p "$CARGO_TARGET_DIR"
  h=$(cd /repo && find Cargo.toml README.md crates -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$h" ]; then
    cargo clean --offline --quiet --manifest-path "$1/Cargo.toml" -p mapping-algorithms > /dev/null 2>&1
  fi
  echo "$h" > "$stamp"
}
