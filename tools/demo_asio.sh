#!/bin/bash
# builds and runs demo.cpp against the headers of the current directory (the repository)
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
# the configuration the repository's build generates, for Boost.Asio
mkdir -p "$t/exec/asio"
sed -e 's/#cmakedefine01 \(.*STANDALONE\)/#define \1 0/' -e 's/#cmakedefine01 \(.*BOOST\)/#define \1 1/' \
  include/exec/asio/asio_config.hpp.in > "$t/exec/asio/asio_config.hpp"
clang++ -std=c++20 -O1 -g -w -pthread -Iinclude -I"$t" "$d/demo.cpp" -o "$t/demo"; rc=$?
if [ $rc = 0 ]; then timeout 120 "$t/demo"; rc=$?; else rc=2; fi
rm -f "$t/demo" "$t/exec/asio/asio_config.hpp"; rmdir "$t/exec/asio" "$t/exec" "$t"
echo "demo exit code $rc"
exit $rc
