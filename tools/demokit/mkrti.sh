#!/bin/sh
# mkrti.sh OUT main.c [gcc options]: builds main.c with the coordinator's sources (without its main function) in the current directory.
set -e
out=$1 main=$2; shift 2
inc=""; for i in include include/api include/core include/core/federated include/core/federated/network include/core/modal_models include/core/platform include/core/threaded include/core/utils low_level_platform/api tag/api trace/api trace/api/types trace/impl/include version/api logging/api platform/api core/federated/RTI; do inc="$inc -I$PWD/$i"; done
gcc -std=gnu11 -g -w -DPLATFORM_Linux -DSTANDALONE_RTI=1 -DFEDERATED=1 -DLOG_LEVEL=1 $inc -o "$out" "$main" "$@" core/federated/RTI/rti_common.c core/federated/RTI/rti_remote.c core/tracepoint.c core/utils/util.c core/tag.c core/clock.c \
  core/federated/network/net_util.c core/utils/pqueue*.c low_level_platform/impl/src/lf_unix_clock_support.c low_level_platform/impl/src/lf_linux_support.c low_level_platform/impl/src/lf_atomic_gcc_clang.c low_level_platform/impl/src/lf_platform_util.c platform/impl/*.c trace/impl/src/*.c -lpthread -lm
