#!/bin/bash
# run.sh ID [args]: builds /repo's working tree with the check of property ID and runs it.
# Exit 0: the property held on everything explored; 1: VIOLATION; 2: error of the check.
cd "$(dirname "$0")" || exit 2
ID=$1; shift
B=${VERIF_BUILD:-build}
mkdir -p "$B" evidence replays || exit 2
exec 9>"$B/.lock"; flock 9
if [ ! -f "$B/build.ninja" ]; then
  cmake -S . -B "$B" -G Ninja -DCMAKE_C_COMPILER=clang -DCMAKE_CXX_COMPILER=clang++ ${VERIF_REPO:+-DREPO=$VERIF_REPO} >"$B/configure.log" 2>&1 || { cat "$B/configure.log"; exit 2; }
fi
if ! ninja -C "$B" "$ID" >"$B/build-$ID.log" 2>&1; then tail -60 "$B/build-$ID.log"; echo "check $ID: build failed"; exit 2; fi
flock -u 9
"$B/$ID" "$@"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || { echo "check $ID: unexpected status $rc"; exit 2; }
exit $rc
