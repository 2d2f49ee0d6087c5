#!/bin/bash
# build.sh DIR : compiles /repo's current sources and the replay harness into DIR/harness
D=$1; R=${LGAR_REPO:-/repo}; H=$(dirname "$(readlink -f "$0")")
mkdir -p "$D/o"
F="-O1 -g -w -fno-omit-frame-pointer -fsanitize=address,undefined -DBMI_ACTIVE -I$R/include -I$R/bmi -I$R/giuh"
pids=()
for s in "$R"/src/*.cxx; do
  b=$(basename "$s")
  case $b in main.cxx|bmi_main_lgar.cxx|x*.cxx) continue;; esac
  g++ -std=c++14 $F -c "$s" -o "$D/o/$b.o" & pids+=($!)
done
for s in "$R"/giuh/*.c; do gcc $F -c "$s" -o "$D/o/$(basename "$s").o" & pids+=($!); done
for s in "$H"/*.cpp; do g++ -std=c++17 $F -c "$s" -o "$D/o/$(basename "$s").o" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p" || exit 1; done
g++ -fsanitize=address,undefined -Wl,--wrap=abort,--wrap=exit,--wrap=__assert_fail "$D"/o/*.o -o "$D/harness" -lm || exit 1
