#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test and its map against the standard library with
# scheduling points.
rustc="$1"; shift
crate=""; prev=""
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && crate="$a"
    prev="$a"
done
dir="$VERIF_SHIM_DIR"
case "$crate" in
    binate) exec "$rustc" "$@" --extern "std=$dir/libshimstd.rlib" -L "dependency=$dir" ;;
    dashmap) exec "$rustc" "$@" --extern "std=$dir/libmapstd.rlib" --extern "core=$dir/libmapstd.rlib" -L "dependency=$dir" ;;
    sched) exec "$rustc" "$@" --extern "shimstd=$dir/libshimstd.rlib" -L "dependency=$dir" ;;
    build_script_build | ___ | "") exec "$rustc" "$@" ;;
    *) exec "$rustc" "$@" -L "dependency=$dir" ;;
esac
