#!/bin/bash
# Builds the RTI of the tree it is run in, and lets a few federates, played by test.py, talk to it over the loopback interface.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -r "$T"' EXIT
for i in include include/core include/core/federated include/core/federated/network include/core/modal_models include/core/platform include/core/threaded include/core/utils \
 include/api low_level_platform/api tag/api trace/api trace/api/types version/api logging/api platform/api core/federated/RTI util trace/impl/include util/tracing; do INC="$INC -I$R/$i"; done
C=core/federated/RTI
SRC="$C/main.c $C/rti_common.c $C/rti_remote.c core/tracepoint.c core/utils/util.c core/tag.c core/clock.c core/federated/network/net_util.c core/utils/pqueue*.c trace/impl/src/*.c
 low_level_platform/impl/src/lf_unix_clock_support.c low_level_platform/impl/src/lf_linux_support.c low_level_platform/impl/src/lf_atomic_gcc_clang.c
 low_level_platform/impl/src/lf_platform_util.c platform/impl/*.c version/impl/src/*.c logging/impl/*.c"
SRC=$(ls $SRC 2>/dev/null)
gcc -w -std=gnu11 -O1 -g -D_GNU_SOURCE -DPLATFORM_Linux -DINITIAL_EVENT_QUEUE_SIZE=10 -DINITIAL_REACT_QUEUE_SIZE=10 -DLOG_LEVEL=0 -DSTANDALONE_RTI=1 -DFEDERATED=1 -DRTI_TRACE $INC -o "$T/RTI" $SRC -lpthread -lm || exit 2
cd "$T"
PYTHONDONTWRITEBYTECODE=1 timeout -s KILL 120 python3 "$H/test.py" "$T/RTI"
