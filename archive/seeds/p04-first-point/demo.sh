#!/bin/bash
# exit 0: behaves as stated; nonzero: property broken
D=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=2 OMP_WAIT_POLICY=passive
g++ -std=c++17 -O1 -w -fopenmp -DNDEBUG -DDISCOTEC_USE_LZ4 -DTIMING -I$R/src -I"$D" -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "$D/demo.cpp" $R/src/utils/LevelVector.cpp $R/src/utils/LevelSetUtils.cpp $R/src/utils/Stats.cpp -o "$T/demo" -lmpi -lboost_serialization -lboost_system -lboost_program_options -lboost_date_time -llz4 || exit 3
cd "$T"
timeout 200 mpirun --oversubscribe --bind-to none -np 3 "$T/demo" > out.txt 2>&1; rc=$?
tail -5 out.txt
[ $rc -eq 0 ] && grep -q DONE out.txt && ! grep -q '^FAIL' out.txt
