#!/bin/bash
# builds the symbolic executor; checks rebuild it themselves if it is missing
cd "$(dirname "$0")" && mkdir -p build evidence && bash shim/mkeigen.sh build/eigen3 && make -s -j4 -C symx OUT="$PWD/build"
