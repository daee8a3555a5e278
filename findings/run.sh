#!/bin/bash
# builds the defect demonstrations against the tree given (default /repo) and runs them
R=${1:-/repo}; D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d)
g++ -std=c++17 -O1 -g -w -DPGBN_DEBUG -DPGZXB_DEBUG -I"$R"/src -I"$R"/c/src -include "$R"/c/src/pgbn.h $(sed "s#\.\./c/src/pgbn.h#pgbn.h#" "$D"/repro.cpp > "$T"/repro.cpp; echo "$T"/repro.cpp) "$R"/src/*.cpp "$R"/src/infixExpr/*.cpp "$R"/c/src/*.cpp -o "$T"/repro -lpthread && "$T"/repro
rm -rf "$T"
