# Build one crate of /verif/aux. Uses the rocksdb library the repository's own build made, when it is there.
. "$(dirname "$0")/env.sh"
cd "$VERIF/aux" || exit 1
export CARGO_TARGET_DIR=${AUX_TARGET:-$VERIF/target/aux}
if [ "$1" = stores ]; then
    A=$(ls /repo/target/debug/build/librocksdb-sys-*/out/librocksdb.a 2>/dev/null | head -1)
    if [ -n "$A" ] && [ -f "$(dirname "$A")/libsnappy.a" ]; then
        D=$(dirname "$A")
        export ROCKSDB_LIB_DIR=$D SNAPPY_LIB_DIR=$D ROCKSDB_STATIC=1 SNAPPY_STATIC=1
    fi
fi
exec cargo build --offline -p "$@"
