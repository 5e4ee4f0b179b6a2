#!/bin/bash
# Builds one target from /repo's current working tree into /verif/build. Usage: build.sh TARGET...
# Targets: sync front yulc cli rt (the C library as a stand-alone wasm module).
set -e
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root LC_ALL=C.UTF-8 RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
B=$V/build
mkdir -p "$B"
if [ -z "$VERIF_LOCKED" ]; then VERIF_LOCKED=1 exec flock "$B/.lock" "$0" "$@"; fi
export CARGO_TARGET_DIR=$B/target
T=$B/tree

# Copies only what differs, so that an unchanged tree triggers no rebuild.
sync_dir() { # from to
  mkdir -p "$2"
  (cd "$1" && find . -type f \( -name '*.rs' -o -name '*.lalrpop' -o -name '*.c' -o -name '*.h' -o -name '*.cpp' -o -name Makefile \) | sort) > "$B/.want"
  (cd "$2" && find . -type f ! -name '*.bc' ! -path './tests/*' | sort) > "$B/.have"
  while read -r f; do
    case "$f" in ./tests/*|./test.rs) continue;; esac
    if ! cmp -s "$1/$f" "$2/$f"; then mkdir -p "$2/$(dirname "$f")"; cp "$1/$f" "$2/$f"; fi
  done < "$B/.want"
  while read -r f; do
    case "$f" in ./test.rs) continue;; esac
    [ -f "$1/$f" ] || rm -f "$2/$f"
  done < "$B/.have"
}
put() { if ! [ -f "$1" ] || [ "$(cat "$1")" != "$2" ]; then mkdir -p "$(dirname "$1")"; printf '%s\n' "$2" > "$1"; fi; }
t_sync() {
  sync_dir "$REPO/src" "$T/src"
  sync_dir "$REPO/stdlib" "$T/stdlib"
  # The repository's own Rust tests are not part of the compiler.
  put "$T/src/test.rs" "// not part of the compiler"
  put "$T/src/tests/mod.rs" "// not part of the compiler"
}
# stdlib bitcode with the repository's Makefile; the Makefile knows no headers, so key on the content of all inputs.
t_bc() {
  t_sync
  local key; key=$(cat "$T"/stdlib/*.c "$T"/stdlib/*.h "$T"/stdlib/Makefile | sha256sum)
  if [ "$(cat "$B/.bckey" 2>/dev/null)" != "$key" ] || [ ! -f "$T/stdlib/wasm/release/chain.bc" ]; then
    rm -f "$B/.bckey" "$T"/stdlib/wasm/release/*.bc
    make -C "$T/stdlib" -B -s release CC=clang-16 > "$B/bc.log" 2>&1 || { cat "$B/bc.log"; exit 1; }
    echo "$key" > "$B/.bckey"
    touch "$B/.bcstamp"
  fi
}
t_crt() {
  mkdir -p "$B/rt"
  if [ ! -f "$B/rt/libclang_rt.builtins-wasm32.a" ] || [ "$V/rt/builtins.c" -nt "$B/rt/libclang_rt.builtins-wasm32.a" ]; then
    clang-18 --target=wasm32 -O2 -fno-builtin -c "$V/rt/builtins.c" -o "$B/rt/builtins.o"
    rm -f "$B/rt/libclang_rt.builtins-wasm32.a"
    /usr/lib/llvm-18/bin/llvm-ar rcs "$B/rt/libclang_rt.builtins-wasm32.a" "$B/rt/builtins.o"
  fi
}
# The release C library, exported function by function. Two layouts: "big" (the initial memory has
# more than one page, as in a default build) and "small" (one page, as with --enable-all-optimizers).
t_rt() {
  t_bc; t_crt
  if [ ! -f "$B/rt/small.wasm" ] || [ "$B/.bcstamp" -nt "$B/rt/small.wasm" ] || [ "$V/rt/scratch.c" -nt "$B/rt/small.wasm" ]; then
    rm -f "$B"/rt/*.wasm
    local f n objs=()
    for f in "$T"/stdlib/wasm/release/*.bc; do
      n=$(basename "$f" .bc)
      clang-16 --target=wasm32 -O2 -c -x ir "$f" -o "$B/rt/lib_$n.o" 2>"$B/rt/$n.log" || { cat "$B/rt/$n.log"; exit 1; }
      objs+=("$B/rt/lib_$n.o")
    done
    for m in big small; do
      local n=4096 st=16384; [ $m = big ] && n=196608 && st=65536
      clang-16 --target=wasm32 -O2 -ffreestanding -DSCRATCH=$n -c "$V/rt/scratch.c" -o "$B/rt/scratch_$m.o"
      wasm-ld --no-entry --allow-undefined --export-all --global-base=0 --stack-first -z stack-size=$st -O2 \
        "${objs[@]}" "$B/rt/scratch_$m.o" \
        -L"$B/rt" -lclang_rt.builtins-wasm32 -o "$B/rt/$m.wasm.tmp"
      mv "$B/rt/$m.wasm.tmp" "$B/rt/$m.wasm"
    done
  fi
}
crate() { # dir
  (cd "$V/crates/$1" && cargo build --offline --locked --release -q 2>"$B/$1.log") || { tail -40 "$B/$1.log"; echo "BUILD-FAILED $1"; exit 1; }
}
t_front() { t_sync; crate front; }
t_yulc() { t_bc; t_crt; crate yulc; }
t_cli() { t_bc; t_crt; crate cli; }
for t in "$@"; do "t_$t"; done
