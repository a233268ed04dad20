# Sourced by the check scripts.
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS
export REPO_DIR=${REPO_DIR:-/repo}
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$VERIF_DIR/target}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}

repo_hash() {
    (cd "$REPO_DIR" && find src build.rs Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# build_mc [PARTS]: builds the explorer against all of meerkat, or only against those parts.
build_mc() {
    mkdir -p "$CARGO_TARGET_DIR" || return 3
    REPO_HASH=$(repo_hash) || return 3
    export REPO_HASH
    local log rc=0
    log=$(mktemp) || return 3
    if ! flock "$CARGO_TARGET_DIR/.mc.lock" cargo build --release --offline --locked \
        --manifest-path "$VERIF_DIR/mc/Cargo.toml" ${1+--no-default-features --features "$1"} >"$log" 2>&1; then
        echo "building the explorer against ${1:-all} of $REPO_DIR failed:"
        grep -E '^error' -A12 "$log" | head -60
        tail -5 "$log"
        rc=3
    fi
    rm -f "$log"
    return $rc
}

# The sets of parts with which property $1 can be decided, at least in part, when not all of
# meerkat's hooks build (a private item they name was renamed, say); best first.
parts_of() {
    case $1 in
    C01 | C02) echo buffers ;;
    C03) echo rle ;;
    C04) echo varint ;;
    C05) echo offsets ;;
    C06 | C07 | C08 | C10) echo enc ;;
    C09 | C11 | C20) echo seg seg,adapt enc ;;
    C12 | C14 | C15) echo io ;;
    C13) echo seg,io seg,io,adapt enc,io seg io enc ;;
    C16 | C17 | C18 | C19 | C22) echo seg seg,adapt ;;
    C21) echo "" ;;
    esac
}

# Builds what is needed to decide property $1.
build_for() {
    local p
    build_mc && return 0
    for p in $(parts_of "$1") ""; do
        [ -n "$p" ] || [ "$1" = C21 ] || continue
        echo "falling back to: ${p:-none}"
        build_mc "$p" && return 0
    done
    return 3
}

# The real executable, with the hook that prints the configuration it starts with. Built from
# a mirror: meerkat's build script rewrites its own sources.
build_cli() {
    local src=$CARGO_TARGET_DIR/cli-src log
    mkdir -p "$src" || return 3
    log=$(mktemp) || return 3
    if ! (
        exec 9>"$CARGO_TARGET_DIR/.cli.lock" && flock 9 || exit 3
        rm -rf "$src/src"
        cp -r "$REPO_DIR/src" "$REPO_DIR/build.rs" "$REPO_DIR/Cargo.toml" "$REPO_DIR/Cargo.lock" "$src/" || exit 3
        cd "$src" && CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR=$CARGO_TARGET_DIR/cli \
            cargo rustc --offline --locked --bin meerkat -- --cfg meerkat_verif
    ) >"$log" 2>&1; then
        echo "building meerkat from $REPO_DIR failed:"
        grep -E '^error' -A12 "$log" | head -60
        tail -5 "$log"
        rm -f "$log"
        return 3
    fi
    rm -f "$log"
    export MC_CLI_BIN=$CARGO_TARGET_DIR/cli/debug/meerkat
}
