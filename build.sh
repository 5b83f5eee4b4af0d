#!/bin/bash
# Builds the library from /repo's working tree plus the harness binary.
# usage: build.sh VARIANT(plain|asan)  -> prints path of the binary
set -e
V=$(cd "$(dirname "$0")" && pwd); VAR=${1:-plain}; R=${REPO:-/repo}/ta-lib-rt/c
B=$V/build/$VAR; [ "${REPO:-/repo}" = /repo ] || B=$B-$(echo "$REPO" | md5sum | cut -c1-8); mkdir -p $B/lib $B/h
if [ $VAR = asan ]; then CF="-O1 -g -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"; else CF="-O1"; fi
exec make -s -j8 -f $V/harness/Makefile B=$B R=$R V=$V CF="$CF" VAR=$VAR $B/mc
