#!/bin/bash
# prepare.sh TARGET: builds the standard library with scheduling points into TARGET/shim.
set -e
here=$(dirname "$(readlink -f "$0")")
out="$1/shim"
mkdir -p "$out"
want=$( (rustc -vV; cat "$here/shim/lib.rs" "$here/shim/map.rs" "$here/wrap.sh") | sha256sum)
if [ "$(cat "$out/stamp" 2>/dev/null)" != "$want" ]; then
    compile() {
        rustc --edition 2021 --crate-type rlib -C opt-level=3 -C metadata=verif --cap-lints allow --out-dir "$out" "$@"
    }
    compile --crate-name shimstd "$here/shim/lib.rs"
    compile --crate-name mapstd --extern "shimstd=$out/libshimstd.rlib" "$here/shim/map.rs"
    # Everything that was compiled against another version goes.
    for p in "$1"/*/; do
        case "$p" in */shim/) ;; *) rm -rf "$p" ;; esac
    done
    echo "$want" > "$out/stamp"
fi
