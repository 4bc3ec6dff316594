#!/bin/bash
# check.sh <property> <quick|thorough>   or   check.sh replay <file>   or   check.sh setup
# Builds the monitors against /repo's current tree, then runs the streams of the property.
set -u
. /opt/vp/env.sh >/dev/null 2>&1
here="${VERIF_DIR:-/verif}"
export CARGO_TARGET_DIR="$here/target" CARGO_TERM_COLOR=never
mkdir -p "$here/target" "$here/evidence"
log="$here/target/build.log"
fail() { echo "check.sh: $1" >&2; tail -40 "$log" >&2; exit 2; }
build() { (cd "$here/harness" && cargo build --offline) >"$log" 2>&1 || fail "the monitors do not build against /repo"; }
# the monitors and the code under test instrumented by the address sanitizer
build_asan() { (cd "$here/harness" && RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$here/target/asan" cargo build --offline --target x86_64-unknown-linux-gnu) >"$log" 2>&1 || fail "the monitors do not build with the address sanitizer"; }
# the command line tool itself
build_cli() {
    (cd /repo && CARGO_TARGET_DIR="$here/target/cli" cargo build -p cordy --offline --locked) >"$log" 2>&1 || fail "the command line tool does not build"
    export CORDYV_CLI="$here/target/cli/debug/cordy"
}
# the libraries of native functions, by two compilers; the second fills what the library leaves unset
build_ffi() {
    local d="$here/target/ffi"; mkdir -p "$d"; export CORDYV_FFI="$d"
    { gcc -O2 -shared -fPIC -DTAG='"A"' -I/repo/cordy "$here/harness/ffi/lib.c" -o "$d/a.so" &&
      clang -O2 -ftrivial-auto-var-init=pattern -shared -fPIC -DTAG='"B"' -I/repo/cordy "$here/harness/ffi/lib.c" -o "$d/b.so" &&
      echo 'int x;' >"$d/plain.c" && gcc -shared -fPIC "$d/plain.c" -o "$d/plain.so" && echo text >"$d/text.so"; } >"$log" 2>&1
}
build
bin="$here/target/debug/cordyv"
what="$1"
if [ "$1" = replay ]; then what=$(head -1 "$2" | cut -d' ' -f2); fi
case "$what" in
    C19|setup) build_asan
        export CORDYV_PLAIN="$bin" CORDYV_ASAN=1
        export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=3500
        bin="$here/target/asan/x86_64-unknown-linux-gnu/debug/cordyv" ;;
esac
case "$what" in
    C22|C23|setup) build_cli ;;
esac
case "$what" in
    # a library that does not compile against the header of the interface is a violation: the documented use of the header is part of the property
    C23|setup) build_ffi || { [ "$what" = setup ] || { mkdir -p "$here/evidence/replay"; { echo "the library of native functions does not compile against /repo/cordy/cordy.h"; cat "$log"; } >"$here/evidence/replay/C23-header.txt"; export CORDYV_HEADER="$here/evidence/replay/C23-header.txt"; }; } ;;
esac
cd "$here" || exit 2
[ "$1" = setup ] && exit 0
if [ "$1" = replay ]; then exec "$bin" replay "$2"; fi
exec "$bin" check "$1" "$2" "${VERIF_SEED:-1}"
