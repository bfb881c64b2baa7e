#!/bin/sh
# mk.sh OUT KIT "DEFINES" main.cpp [more gcc options]: builds the program of main.cpp with the runtime in the current directory.
set -e
out=$1 kit=$2 defs=$3 main=$4; shift 4
d=$(mktemp -d)
inc=""; for i in include include/api include/core include/core/federated include/core/federated/network include/core/modal_models include/core/platform include/core/threaded include/core/utils low_level_platform/api tag/api trace/api trace/api/types trace/impl/include version/api logging/api platform/api core/federated/RTI; do inc="$inc -I$PWD/$i"; done
src="core/*.c core/utils/*.c core/utils/hashset/*.c lib/*.c core/modal_models/*.c low_level_platform/impl/src/lf_unix_clock_support.c low_level_platform/impl/src/lf_linux_support.c low_level_platform/impl/src/lf_atomic_gcc_clang.c low_level_platform/impl/src/lf_platform_util.c platform/impl/*.c"
case "$defs" in *LF_SINGLE_THREADED*) src=$(ls $src | grep -v lf_semaphore.c);; *) src="$src core/threaded/*.c";; esac
case "$defs" in *FEDERATED*) src="$src core/federated/federate.c core/federated/clock-sync.c core/federated/network/*.c";; esac
for f in tag/impl/*.c tag/*.c version/impl/*.c version/src/*.c logging/impl/*.c logging/*.c tag/api/*.c version/*.c; do [ -f "$f" ] && src="$src $f"; done
n=0
for f in $(ls $src) "$kit/lfgen.c"; do n=$((n+1)); gcc -std=gnu11 -g -O1 -w -c -o "$d/$n.o" "$f" -DPLATFORM_Linux -DINITIAL_EVENT_QUEUE_SIZE=10 -DINITIAL_REACT_QUEUE_SIZE=10 -DLOG_LEVEL=2 $defs $inc -I"$kit" & [ $((n % 8)) = 0 ] && wait; done
g++ -std=c++17 -g -w -c -o "$d/a.o" "$kit/kit.cpp" -I"$kit" & g++ -std=c++17 -g -w -c -o "$d/b.o" "$kit/lfspec.cpp" -I"$kit" & g++ -std=c++17 -g -w -c -o "$d/c.o" "$main" -I"$kit" & wait
g++ -o "$out" "$d"/*.o -lpthread -lm "$@"
rm -rf "$d"
