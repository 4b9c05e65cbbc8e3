#!/bin/bash
# Stage /repo's current working tree and build it: C standard library (bitcode), the real compiler
# (driver `ydrv`, and with "cli" the project's own `yul2wasm` binary). All output under /verif/.build.
#   build.sh std|drv|cli
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
B=$V/.build
WHAT=${1:-drv}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin HOME=/root LC_ALL=C.UTF-8
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$B/target
mkdir -p "$B"
exec 9>"$B/lock"; flock 9

S=$B/stage
mkdir -p "$S/src"
# checksum-based copy: unchanged files keep their time stamps, so unchanged trees rebuild nothing
sync_dir() { # from to
    python3 "$V/tools/sync.py" "$1" "$2" "${@:3}"
}
sync_dir "$R/src" "$S/src" --skip tests --skip test.rs --skip bin
sync_dir "$R/stdlib" "$S/stdlib" --skip wasm
sync_dir "$V/harness/compiler/src/bin" "$S/src/bin"
mkdir -p "$S/src/tests"
[ -f "$S/src/test.rs" ] || : > "$S/src/test.rs"
[ -f "$S/src/tests/mod.rs" ] || : > "$S/src/tests/mod.rs"
for f in Cargo.toml build.rs Cargo.lock; do
    sed "s#@SHIMS@#$V/shims#" "$V/harness/compiler/$f" > "$B/tmp.f"
    cmp -s "$B/tmp.f" "$S/$f" || cp "$B/tmp.f" "$S/$f"
done

if [ "$WHAT" = fe ]; then
    # the front end alone: grammar, AST and text utilities, with the explorers of C01-C03
    F=$B/fe; mkdir -p "$F/src/yul2ir"
    python3 "$V/tools/sync.py" "$V/harness/fe/src" "$F/src" --skip yul2ir --skip yul.lalrpop
    for f in Cargo.toml build.rs Cargo.lock; do [ -f "$V/harness/fe/$f" ] && { cmp -s "$V/harness/fe/$f" "$F/$f" || cp "$V/harness/fe/$f" "$F/$f"; }; done
    for f in yul.lalrpop yul2ir/ast.rs yul2ir/utils.rs; do cmp -s "$R/src/$f" "$F/src/$f" || cp "$R/src/$f" "$F/src/$f"; done
    cd "$F"; CARGO_TARGET_DIR=$B/target-fe cargo build --offline --bin fe > "$B/cargo-fe.log" 2>&1 || { tail -60 "$B/cargo-fe.log" >&2; exit 3; }
    exit 0
fi

# 1. C standard library to bitcode, exactly as the project's Makefile does
H=$(cd "$S/stdlib" && find . -maxdepth 1 -type f | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$B/stdlib.hash" 2>/dev/null)" != "$H" ]; then
    rm -f "$B/stdlib.hash"
    (cd "$S/stdlib" && make -B -s debug release CC=clang-16 > "$B/stdlib.log" 2>&1) || { cat "$B/stdlib.log" >&2; exit 3; }
    echo "$H" > "$B/stdlib.hash"
fi

# 2. compiler-rt pieces the linker asks for (-lclang_rt.builtins-wasm32)
if [ ! -f "$B/rt/libclang_rt.builtins-wasm32.a" ] || [ "$V/tools/rt.c" -nt "$B/rt/libclang_rt.builtins-wasm32.a" ]; then
    mkdir -p "$B/rt"
    clang-16 --target=wasm32 -O2 -ffreestanding -fno-builtin -c "$V/tools/rt.c" -o "$B/rt/rt.o"
    rm -f "$B/rt/libclang_rt.builtins-wasm32.a"
    llvm-ar-18 rcs "$B/rt/libclang_rt.builtins-wasm32.a" "$B/rt/rt.o" 2>/dev/null || /usr/lib/llvm-18/bin/llvm-ar rcs "$B/rt/libclang_rt.builtins-wasm32.a" "$B/rt/rt.o"
fi
if [ "$WHAT" = std ]; then
    # the library alone as wasm modules: both builds, small (one page) and large (three pages) memory
    if [ "$(cat "$B/std/hash" 2>/dev/null)" != "$H$(sha256sum < "$0")" ]; then
        rm -rf "$B/std"; mkdir -p "$B/std"
        for k in debug release; do
            O=-O0; [ $k = release ] && O=-O2
            OBJ=()
            for bc in "$S"/stdlib/wasm/$k/*.bc; do
                o=$B/std/$k-$(basename "$bc" .bc).o
                clang-16 --target=wasm32 $O -Wno-override-module -c "$bc" -o "$o" || exit 3
                OBJ+=("$o")
            done
            for v in small large; do
                M=65536; [ $v = large ] && M=196608
                wasm-ld --no-entry --export-all --allow-undefined --stack-first -z stack-size=16384 --initial-memory=$M --no-gc-sections \
                    "${OBJ[@]}" "$B/rt/libclang_rt.builtins-wasm32.a" -o "$B/std/$k-$v.wasm" 2> "$B/std/ld.log" || { cat "$B/std/ld.log" >&2; exit 3; }
            done
        done
        echo "$H$(sha256sum < "$0")" > "$B/std/hash"
    fi
    exit 0
fi

# 3. the compiler
if [ "$WHAT" = nd ]; then
    # the same sources with the iteration order of hash containers as a controlled choice (check C24)
    N=$B/stage-nd; mkdir -p "$N/src"
    rm -rf "$B/nd-src"; cp -r "$S/src" "$B/nd-src"
    find "$B/nd-src" -name '*.rs' -o -name '*.lalrpop' | xargs sed -i -e 's/std::collections\b/ndet::collections/g' -e 's#//@nd ##'
    sync_dir "$B/nd-src" "$N/src"; rm -rf "$B/nd-src"
    sync_dir "$S/stdlib" "$N/stdlib"
    for f in Cargo.toml build.rs Cargo.lock; do
        sed -e "s#^\[dependencies\]#&\nndet = { path = \"$V/shims/ndet\" }#" "$S/$f" > "$B/tmp.f"
        [ $f = Cargo.lock ] && [ -f "$N/$f" ] && continue
        cmp -s "$B/tmp.f" "$N/$f" || cp "$B/tmp.f" "$N/$f"
    done
    cd "$N"
    CARGO_TARGET_DIR=$B/target-nd cargo build --offline --bin ydrv > "$B/cargo-nd.log" 2>&1 || { tail -60 "$B/cargo-nd.log" >&2; exit 3; }
    exit 0
fi
FEAT=(--bin ydrv)
[ "$WHAT" = cli ] && FEAT=(--features cli --bins)
cd "$S"
cargo build --offline --locked "${FEAT[@]}" > "$B/cargo.log" 2>&1 || { tail -60 "$B/cargo.log" >&2; exit 3; }
