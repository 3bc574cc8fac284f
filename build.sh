#!/bin/bash
# Builds the simulator against /repo's current working tree: with debug assertions, and as shipped.
. "$(cd "$(dirname "$0")" && pwd)/env.sh"
cd "$VERIF_DIR/sim" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif-lock"; flock 9
# What cargo goes by is modification times; go by contents.
now="$( (cd /repo && find . \( -name target -o -name .git -o -name node_modules \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.h' -o -name '*.cs' -o -path '*/templates/*' -o -path '*/languages/*' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum)"
one() { # NAME FLAGS
    local stamp="$CARGO_TARGET_DIR/.repo-$1" log="$CARGO_TARGET_DIR/build-$1.log"
    if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        rm -f "$stamp"
        cargo clean --offline $2 -p safer-ffi -p safer_ffi-proc_macros >/dev/null 2>&1
    fi
    if ! cargo build --offline --locked $2 >"$log" 2>&1; then
        tail -60 "$log"; return 1
    fi
    echo "$now" >"$stamp"
}
one dev "" & a=$!
one release "--release" & b=$!
wait $a; ra=$?
wait $b; rb=$?
[ $ra -eq 0 ] && [ $rb -eq 0 ]
