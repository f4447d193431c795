#!/bin/bash
# rustc wrapper: adds the edge hook (LLVM's trace-pc-guard) to the crates under test only.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  ratel|ratel_codegen|ratel_visitor|ratel_transformer|ratel_wasm|ratel_sut|toolshed)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 ;;
esac
exec "$rustc" "$@"
