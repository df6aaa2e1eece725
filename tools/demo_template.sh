#!/bin/bash
# builds demo.c against the sources in the current directory and runs it in a scratch directory
set -e
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/cfg/bpak"
printf '#define BPAK_CONFIG_MERKLE 1\n#define BPAK_CONFIG_LZMA 1\n#define BPAK_CONFIG_MBEDTLS 1\n' > "$T/cfg/bpak/build_config.h"
SRC=$(ls lib/*.c lib/heatshrink/*.c ext/uuid/unpack.c ext/uuid/unparse.c)
for s in $SRC; do
  gcc -g -O1 -w -std=gnu99 $EXTRA -I"$T/cfg" -I"$R/include" -I"$R/lib" -I"$R/ext/uuid" -c "$s" -o "$T/$(echo $s | tr / _).o" &
done; wait
gcc -g -O1 -w -std=gnu99 $EXTRA -I"$T/cfg" -I"$R/include" -I"$R/lib" -I"$R/ext/uuid" "$H/demo.c" "$T"/*.o -o "$T/demo" -lmbedcrypto -llzma
cd "$T" && timeout 120 ./demo
