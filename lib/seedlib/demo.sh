#!/bin/bash
# Builds demo.cpp against the libraries of the build in the current directory (/repo) and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD
I=
for d in base-framework/include base-framework/impl core-library/include core-library/impl neuron-traits-library/include \
    meta-library/include synapse-traits-library/include backends/cpu/cpu-single-threaded-backend/include \
    backends/cpu/cpu-multi-threaded-backend/include backends/cpu/cpu-devices/include backends/cpu/thread_pool/include \
    backends/cpu/cpu-library/include; do
    I="$I -I$R/knp/$d"
done
L=
for l in $R/_build/lib/libknp-*.a; do L="$L $l"; done
g++ -std=c++17 -O1 $DEMO_FLAGS -DFMT_SHARED -DSPDLOG_FMT_EXTERNAL -DSPDLOG_ACTIVE_LEVEL=6 $I -I"$D" -isystem /usr/include/opencv4 \
    "$D/demo.cpp" -o "$T/demo" -Wl,--start-group $L -Wl,--end-group -lzmq -lflatbuffers -lfmt -lboost_filesystem \
    -lopencv_highgui -lopencv_imgproc -lopencv_core -lpthread -ldl 2>"$T/log" || { cat "$T/log"; exit 2; }
cd "$T" && timeout 120 ./demo
