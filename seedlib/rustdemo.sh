# Sourced by a demo: compiles $1 (a .rs beside the demo) against /repo's built library into $2.
rustdemo() {
    D=/repo/target/debug
    CS=$(ls -t $D/deps/libcodespan_reporting-*.rlib | head -1)
    rustc +stable --edition 2021 -A warnings -C debuginfo=0 --extern eucalypt=$D/deps/libeucalypt.rlib --extern codespan_reporting=$CS -L dependency=$D/deps "$1" -o "$2" || { echo "demo does not compile" >&2; exit 2; }
}
