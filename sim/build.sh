#!/bin/bash
# usage: build.sh OUTDIR
set -e
cd "$(dirname "$0")"
CF="-O2 -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-builtin-malloc"
gcc $CF -shared -fPIC -o "$1/libsim.so" core.c io.c net.c child.c -ldl -lpthread
gcc $CF -o "$1/simrun" launch.c
