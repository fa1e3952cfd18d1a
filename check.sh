#!/bin/bash
# check.sh ID               builds the harness against /repo's working tree and runs the check of that property
# check.sh --replay FILE    runs the one case of a replay file
# check.sh --build          only builds
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$VERIF_DIR/build" "$VERIF_DIR/evidence"
log="$VERIF_DIR/build/build.$$.log"
trap 'rm -f "$log"' EXIT
[ "$1" = --replay ] && file="$(realpath "$2")"

# The JavaScript bindings, for C32.
bindings() {
    local tool=/opt/vp/offline/tools/bin/wasm-bindgen
    [ -x "$tool" ] || tool=wasm-bindgen
    cd "$VERIF_DIR/wasm" &&
        cargo build --release --offline --locked --target wasm32-unknown-unknown >"$log" 2>&1 &&
        "$tool" --target nodejs --out-dir "$VERIF_DIR/build/wasm-pkg" \
            "$CARGO_TARGET_DIR/wasm32-unknown-unknown/release/wasmpair.wasm" >>"$log" 2>&1 && return
    cat "$log" >&2
    echo "error: the JavaScript bindings do not build from /repo" >&2
    return 1
}

# The JavaScript package, with stand-ins for the packages it builds on, for C33.
bundle() {
    local d="$VERIF_DIR/jscert"
    cd "$d" && /opt/veriftools/node/node_modules/.bin/esbuild entry.js --bundle --platform=node --format=cjs --keep-names \
        --log-level=warning --alias:certificate-verification=/repo/packages/certificate-verification-js/src/index.ts \
        --alias:@dfinity/agent="$d/agent.js" --alias:@dfinity/candid="$d/candid.js" --alias:@dfinity/principal="$d/principal.js" \
        --outfile="$VERIF_DIR/build/jscert/bundle.cjs" >"$log" 2>&1 && return
    cat "$log" >&2
    echo "error: the JavaScript package does not build from /repo" >&2
    return 1
}

# The example canisters, for C34 to C36.
canisters() {
    cd "$VERIF_DIR/canisters" && cargo build --release --offline --locked --target wasm32-unknown-unknown >"$log" 2>&1 &&
        mkdir -p "$VERIF_DIR/build/canisters" &&
        cp "$CARGO_TARGET_DIR"/wasm32-unknown-unknown/release/canister_*.wasm "$VERIF_DIR/build/canisters/" && return
    cat "$log" >&2
    echo "error: the example canisters do not build from /repo" >&2
    return 1
}

# The package that builds certificates for tests, for C37.
testing() {
    cd "$VERIF_DIR/testing" && cargo build --release --offline --locked >"$log" 2>&1 && return
    cat "$log" >&2
    echo "error: the package for tests does not build from /repo" >&2
    return 1
}

case "$1" in
--build) bindings && bundle && canisters && testing || exit 2 ;;
C32) bindings || exit 2 ;;
C33) bundle || exit 2 ;;
C34 | C35 | C36) canisters || exit 2 ;;
C37) testing || exit 2 ;;
--replay)
    grep -q '"C32"' "$file" && { bindings || exit 2; }
    grep -q '"C33"' "$file" && { bundle || exit 2; }
    grep -qE '"C3[456]"' "$file" && { canisters || exit 2; }
    grep -q '"C37"' "$file" && { testing || exit 2; }
    ;;
esac
cd "$VERIF_DIR/harness" || exit 2
if ! cargo build --release --offline --locked >"$log" 2>&1; then
    cat "$log" >&2
    echo "error: the harness does not build against /repo" >&2
    exit 2
fi
bin="$CARGO_TARGET_DIR/release/pbt"
case "$1" in
--build) exit 0 ;;
--replay)
    exec "$bin" replay "$file" ;;
esac
cd "$VERIF_DIR" || exit 2
"$bin" check "$1" || exit
# C32 and later run their code in other processes
[ "$VERIF_TIER" = thorough ] && [[ "$1" < C32 ]] || exit 0
cd "$VERIF_DIR/harness" || exit 2
if ! RUSTC_WRAPPER="$VERIF_DIR/cov-rustc.sh" CARGO_TARGET_DIR="$VERIF_DIR/build/cov" cargo build --release --offline --locked >"$log" 2>&1; then
    cat "$log" >&2
    echo "error: the harness does not build with coverage" >&2
    exit 2
fi
cd "$VERIF_DIR" && "$VERIF_DIR/build/cov/release/pbt" fuzz "$1" "${FUZZ_SECONDS:-900}"
