#!/bin/bash
# Validates the stand-ins of /verif/shim: compiles the repository's own unit tests (which
# cannot be built in this sandbox without them) against the stand-ins and runs them.
# usage: shim_validation.sh [scratch dir] [pattern]
R=${VERIF_REPO:-/repo}; S=${1:-/tmp/shim_validation}; mkdir -p "$S"
one() {
  t=$1; n=$(echo "${t#$R/src/resonanceReconstruction/}" | tr / _)
  if timeout 1500 g++ -std=c++17 -w -O1 -include /verif/harness/full.hpp -I /verif/shim -I $R/src \
      -I /usr/include/eigen3 -I /verif/harness -I $(dirname $t) -I $(dirname $t)/.. $t -o $S/$n.exe > $S/$n.err 2>&1
  then ( cd $(dirname $t); [ -d resources ] && cd resources; timeout 600 $S/$n.exe > $S/$n.out 2>&1; rc=$?; echo "$n rc=$rc $(tail -3 $S/$n.out | grep -a 'assert' | tr '\n' ' ')" )
    rm -f $S/$n.exe
  else echo "$n DOES-NOT-COMPILE $(grep -c error: $S/$n.err)"; fi
}
export -f one; export R S
find $R/src -name '*.test.cpp' | grep -E "${2:-.}" | xargs -P ${JOBS:-4} -I{} bash -c 'one {}'
