#!/bin/bash
# builds demo.cpp with the library's sources of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
flags="-std=c++17 -O0 -g -w -pthread -DCRG_BUILD_STATIC -DCRG_VERSION_MAJOR=1 -DCRG_VERSION_MINOR=2 -DCRG_VERSION_BUILD=0 -fsanitize=address,undefined -fno-sanitize-recover=undefined -I$repo/include -I$repo/source -I$here"
export flags tmp
ls "$repo"/source/RenderGraph/*.cpp "$repo"/source/RenderGraph/RunnablePasses/*.cpp "$here"/*.cpp \
	| xargs -P 8 -I{} sh -c 'g++ $flags -c {} -o "$tmp/$(basename {}).o"' || { echo "the demonstration does not build"; exit 2; }
g++ $flags "$tmp"/*.o -o "$tmp/demo" -ldl || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$tmp/demo"
