#!/bin/bash
# build.sh SRC OUT [DEFINES...]: builds harness/SRC.cpp against /repo's working tree into build/OUT
set -e
V=$(dirname "$(readlink -f "$0")")
REPO=${REPO:-/repo}
B=${BUILD:-$V/build}
mkdir -p "$B"
S=$1; N=$2; shift; shift
OPT="-std=c++17 -O2 -g1 -fno-stack-protector -fno-pie"
INS="-std=c++17 -O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -w -fopenmp -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-pie -fno-stack-protector"
INC="-I$V -I$V/harness -I$V/shim -I$V/shim/mpi -I$REPO/lib"
( g++ $OPT -I$V -c "$V/sim/rt.cpp" -o "$B/$N.rt.o" ) & p1=$!
( g++ $OPT -I$V -c "$V/sim/driver.cpp" -o "$B/$N.driver.o" ) & p2=$!
( g++ $OPT -I$V -c "$V/sim/oracle.cpp" -o "$B/$N.oracle.o" ) & p3=$!
( g++ $OPT -I$V -c "$V/sim/mpi_sim.cpp" -o "$B/$N.mpi.o" ) & p4=$!
g++ $INS $INC "$@" -c "$V/harness/$S.cpp" -o "$B/$N.o"
# a program that is run inside the simulator keeps its main(), under another name
if nm "$B/$N.o" | grep -q ' T main$'; then objcopy --redefine-sym main=app_main "$B/$N.o"; fi
wait $p1; wait $p2; wait $p3; wait $p4
g++ -no-pie -rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset "$B/$N.o" "$B/$N.rt.o" "$B/$N.driver.o" "$B/$N.oracle.o" "$B/$N.mpi.o" -o "$B/$N" -ldl
