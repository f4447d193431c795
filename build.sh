# sourced: builds the simulator with instrumented copies of /repo's crates; sets DST_BIN
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export DST_ROOT=$HERE
if ! command -v cargo >/dev/null 2>&1; then
    [ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
fi
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
( cd "$HERE/dst" && RUSTC_WRAPPER="$HERE/dst/wrap.sh" CARGO_TARGET_DIR="$HERE/target" \
    cargo build --release --offline --locked >"$HERE/target-build.log" 2>&1 ) || {
    cat "$HERE/target-build.log" >&2
    echo "dst: build failed" >&2
    exit 2
}
DST_BIN=$HERE/target/release/dst
