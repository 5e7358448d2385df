#!/bin/bash
# Build the analyser (offline, only the installed LLVM 18 development files are used).
set -e
cd "$(dirname "$0")/../analyzer"
make -j8 >/dev/null
echo "analyser ready"
