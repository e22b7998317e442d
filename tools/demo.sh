#!/bin/bash
# builds and runs demo.cpp against the headers of the current directory (the repository)
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
clang++ -std=c++20 -O1 -g -pthread -Iinclude "$d/demo.cpp" -o "$t/demo" || { rm -f "$t/demo"; rmdir "$t"; exit 2; }
timeout 120 "$t/demo"; rc=$?
rm -f "$t/demo"; rmdir "$t"
echo "demo exit code $rc"
exit $rc
