#!/bin/bash
# exit 0: the property holds; run in /repo
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 2; trap 'rm -r "$w"' EXIT
clang++ -std=c++14 -O1 -g -w -fsanitize=thread -include stdexcept -I include -I "$d" "$d/demo.cpp" -o "$w/demo" -lboost_thread -lboost_system -lpthread || exit 3
cd "$w"; for i in 1 2 3; do TSAN_OPTIONS=exitcode=66 timeout 80 ./demo 2> err || { r=$?; grep -A1 'WARNING: ThreadSanitizer: data race' err | head -2; grep -q 'FATAL: ThreadSanitizer' err && exit 0; exit $r; }; done
