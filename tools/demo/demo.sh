#!/bin/bash
# Runs in the repository after its build; exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -w -I"$D" -Iinclude -I_build/include "$D/demo.cpp" -o "$T/demo" -ltbb -lboost_timer || exit 2
cd "$T" && timeout 250 ./demo
