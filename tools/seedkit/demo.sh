#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Run in the repository after its build.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++14 -w -O1 -g $(find src -type d -printf '-I%p ') -isystem /opt/vp/compat -I"$here" "$here/demo.cpp" \
    $(find _build/CMakeFiles/vp_objs.dir -name '*.o') -o "$out/demo" \
    -Wl,-Bstatic -lst -lhttp_parser -Wl,-Bdynamic -lrtmp -lpthread -lsrt -lssl -lcrypto \
    -lavformat -lavcodec -lavdevice -lavfilter -lavutil -lswresample -lswscale 2> "$out/log" || { cat "$out/log"; exit 3; }
cd "$out" && timeout 60 ./demo
