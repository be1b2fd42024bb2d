#!/bin/bash
# Build everything a check needs from /repo's current tree. Usage: build.sh os|cli|sim|sim07|py|js ...
set -e
V=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export VERIF_DIR=$V T=$V/target
mkdir -p "$T"
[ "$1" = all ] && set -- os cli sim sim07 py js
for what in "$@"; do
  case $what in
    os)
      if [ ! -f "$T/libsimos.so" ] || [ "$V/simos/simos.c" -nt "$T/libsimos.so" ] || [ "$V/simos/simos.h" -nt "$T/libsimos.so" ]; then
        gcc -O2 -fPIC -shared -Wall -Wextra -Wno-nonnull-compare -fno-delete-null-pointer-checks -U_FORTIFY_SOURCE -fno-builtin \
          -o "$T/libsimos.so.$$" "$V/simos/simos.c" -ldl
        mv "$T/libsimos.so.$$" "$T/libsimos.so"
      fi ;;
    cli)
      CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false \
        cargo build --release --offline -q --manifest-path /repo/Cargo.toml -p math-core-cli --target-dir "$T/repo" ;;
    sim07) # the same simulator, with the library's code instrumented so that calls can be suspended anywhere
      (cd "$V/sim" && RUSTC_WRAPPER="$V/instrument.sh" cargo build --release --offline -q --target-dir "$T/sim07") ;;
    py)
      if [ ! -f "$T/libpysim.so" ] || [ "$V/pysim/pysim.c" -nt "$T/libpysim.so" ]; then
        gcc -O2 -fPIC -shared -Wall -Wextra -o "$T/libpysim.so.$$" "$V/pysim/pysim.c" -ldl -lpthread
        mv "$T/libpysim.so.$$" "$T/libpysim.so"
      fi
      PYO3_PYTHON=/opt/vp/pyvenv/bin/python \
      CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false \
        cargo build --release --offline -q --manifest-path /repo/Cargo.toml -p math-core-python --target-dir "$T/repo"
      mkdir -p "$T/py/math_core"
      cp /repo/python/math_core/*.py "$T/py/math_core/"
      cp "$T/repo/release/libmath_core_python.so" "$T/py/math_core/_math_core_rust.abi3.so.$$"
      mv "$T/py/math_core/_math_core_rust.abi3.so.$$" "$T/py/math_core/_math_core_rust.abi3.so" ;;
    js)
      # The standard library for WebAssembly, from the sources that come with the compiler.
      R="$T/wasm-sysroot-$(rustc -vV | sed -n 's/^commit-hash: //p')" S=$(rustc --print sysroot)
      if [ ! -d "$R" ]; then
        D="$T/wasm-std"
        mkdir -p "$D/src" "$D/.cargo" "$R.$$/lib/rustlib/wasm32-unknown-unknown/lib"
        printf '[package]\nname = "wasm-std"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n' > "$D/Cargo.toml"
        printf '[source.crates-io]\nreplace-with = "vendor"\n[source.vendor]\ndirectory = "%s/lib/rustlib/src/rust/library/vendor"\n' "$S" > "$D/.cargo/config.toml"
        : > "$D/src/lib.rs"
        (cd "$D" && RUSTC_BOOTSTRAP=1 cargo build --release --offline -q -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown --target-dir "$D/target")
        cp "$D"/target/wasm32-unknown-unknown/release/deps/lib*.rlib "$R.$$/lib/rustlib/wasm32-unknown-unknown/lib/"
        rm -f "$R.$$"/lib/rustlib/wasm32-unknown-unknown/lib/libwasm_std-*.rlib
        mv "$R.$$" "$R"
      fi
      (cd "$V/jsim/bindgen" && cargo build --release --offline -q --target-dir "$T/bindgen")
      CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_LINKER=wasm-ld CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS="--sysroot $R" \
        cargo build --release --offline -q --manifest-path /repo/Cargo.toml -p math-core-wasm --features ariadne --target wasm32-unknown-unknown --target-dir "$T/js"
      mkdir -p "$T/jspkg" "$T/jsweb"
      "$T/bindgen/release/bindgen" "$T/js/wasm32-unknown-unknown/release/math_core_wasm.wasm" "$T/jspkg" nodejs math_core
      "$T/bindgen/release/bindgen" "$T/js/wasm32-unknown-unknown/release/math_core_wasm.wasm" "$T/jsweb" web math_core_wasm ;;
    sim)
      (cd "$V/sim" && cargo build --release --offline -q --target-dir "$T/sim") ;;
  esac
done
