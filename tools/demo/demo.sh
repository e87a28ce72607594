#!/bin/bash
# Builds demo.cc with the sources of the current tree (cwd = the repository) and runs it in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export here repo work
flags="-std=c++17 -O1 -g1 -pipe -w -DASIO_STANDALONE -Diter_start_seqnum=readahead_size -include string -include cctype -include cstdint -include cmath -include array -include mutex -include memory -include $here/shim/nostack.hh -I$here/shim -I$repo/src -I$repo/deps ${EXTRA_FLAGS:-}"
export flags
SRCS=$( (cd "$repo/src" && find . -name '*.cc' ! -name 'Xrd*' | sed "s|^\./|$repo/src/|"); echo "$repo/deps/xxhash/xxhash.cc"; echo "$here/demo.cc")
printf '%s\n' $SRCS | xargs -P 8 -I{} bash -c 'o=$(echo "{}" | tr / _); g++ $flags -c "{}" -o "$work/$o.o" || echo "compile failed: {}"' || true
g++ ${EXTRA_FLAGS:-} "$work"/*.o -o "$work/demo" -lrocksdb -lssl -lcrypto -luuid -lz -lbz2 -llz4 -lzstd -lpthread -ldl || exit 3
mkdir "$work/scratch" && cd "$work/scratch" && timeout 120 "$work/demo" "$work/scratch"
