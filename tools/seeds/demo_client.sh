#!/bin/bash
# run with cwd /repo after the build: exit 0 if the property holds
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -r -- "$W"' EXIT
B=$PWD/_build
g++ -O1 -fPIC -std=c++11 -fno-access-control -w -o "$W/demo" "$D/demo.cpp" -I"$D" -I"$PWD" -I"$PWD/libnymea-remoteproxyclient" -I"$B" \
  $(pkg-config --cflags Qt5Core Qt5Network Qt5WebSockets) -L"$B/libnymea-remoteproxyclient" -lnymea-remoteproxyclient \
  $(pkg-config --libs Qt5Core Qt5Network Qt5WebSockets) || exit 2
cp "$D"/*.crt "$D"/*.pem "$W" 2>/dev/null
cd "$W" && LD_LIBRARY_PATH=$B/libnymea-remoteproxyclient QT_LOGGING_RULES='*=false' timeout 120 ./demo
