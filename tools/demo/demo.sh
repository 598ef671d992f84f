#!/bin/bash
# exit 0: the property holds; run in /repo
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 2; trap 'rm -r "$w"' EXIT
g++ -std=c++14 -O0 -w -include stdexcept -I include -I "$d" "$d/demo.cpp" -o "$w/demo" -lboost_thread -lboost_system -lpthread || exit 3
cd "$w" && timeout 120 ./demo
