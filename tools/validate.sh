#!/bin/bash
# Development aid: tools/validate.sh SPEC [trials] builds specs/SPEC.cpp natively with sampled inputs and prints failing obligations.
set -e
S=$1; T=${2:-20}; D=$(mktemp -d); 
grep -o 'extern "C" void [PQ][0-9]*_[a-z0-9_]*' /verif/specs/$S.cpp | sed 's/.* /X(/;s/$/)/' > $D/entries.inc
F="-std=c++14 -fms-extensions -Wno-nonportable-include-path -w -isystem /verif/shim -include msvc_compat.h -I${CM_REPO:-/repo}/ColorMagic -I/verif/specs -O1 -g"
clang++-18 $F -c /verif/specs/$S.cpp -o $D/s.o
clang++-18 -std=c++17 -O1 -DENTRIES="\"$D/entries.inc\"" /verif/tools/native_stubs.cpp $D/s.o /repo/_build/libColorMagic.a -o $D/v
$D/v $T > $D/out || echo "exit $?"
awk -F'\t' '$3>0' $D/out; echo "$(wc -l < $D/out) obligations"
rm -rf "$D"
