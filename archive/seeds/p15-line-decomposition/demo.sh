#!/bin/bash
# exit 0: behaves as stated; nonzero: property broken
D=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=2 OMP_WAIT_POLICY=passive
g++ -std=c++17 -O1 -w -fopenmp -DNDEBUG -DDISCOTEC_USE_LZ4 -DTIMING -DOMPI_SKIP_MPICXX -I$R/src -I"$D" -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "$D/demo.cpp" $R/src/mpi/MPISystem.cpp $R/src/mpi/OpenMPUtils.cpp $R/src/utils/Stats.cpp $R/src/utils/LevelVector.cpp $R/src/utils/LevelSetUtils.cpp $R/src/fault_tolerance/FaultCriterion.cpp $R/src/fault_tolerance/StaticFaults.cpp $R/src/fault_tolerance/WeibullFaults.cpp $R/src/mpi_fault_simulator/MPI-FT.cpp $R/src/mpi_fault_simulator/MPI-FT_ULFM.cpp $R/src/mpi_fault_simulator/MPI-FT_bitflips.cpp $R/src/mpi_fault_simulator/Sim_FT_abort.cpp $R/src/mpi_fault_simulator/Sim_FT_allreduce.cpp $R/src/mpi_fault_simulator/Sim_FT_barrier.cpp $R/src/mpi_fault_simulator/Sim_FT_bcast.cpp $R/src/mpi_fault_simulator/Sim_FT_cart_coords.cpp $R/src/mpi_fault_simulator/Sim_FT_cart_create.cpp $R/src/mpi_fault_simulator/Sim_FT_cart_rank.cpp $R/src/mpi_fault_simulator/Sim_FT_comm_create.cpp $R/src/mpi_fault_simulator/Sim_FT_comm_free.cpp $R/src/mpi_fault_simulator/Sim_FT_comm_group.cpp $R/src/mpi_fault_simulator/Sim_FT_comm_rank.cpp $R/src/mpi_fault_simulator/Sim_FT_comm_set_errhandler.cpp $R/src/mpi_fault_simulator/Sim_FT_comm_size.cpp $R/src/mpi_fault_simulator/Sim_FT_comm_split.cpp $R/src/mpi_fault_simulator/Sim_FT_finalize.cpp $R/src/mpi_fault_simulator/Sim_FT_get_count.cpp $R/src/mpi_fault_simulator/Sim_FT_iallreduce.cpp $R/src/mpi_fault_simulator/Sim_FT_ibarrier.cpp $R/src/mpi_fault_simulator/Sim_FT_ibcast.cpp $R/src/mpi_fault_simulator/Sim_FT_init.cpp $R/src/mpi_fault_simulator/Sim_FT_irecv.cpp $R/src/mpi_fault_simulator/Sim_FT_isend.cpp $R/src/mpi_fault_simulator/Sim_FT_probe.cpp $R/src/mpi_fault_simulator/Sim_FT_recv.cpp $R/src/mpi_fault_simulator/Sim_FT_reduce.cpp $R/src/mpi_fault_simulator/Sim_FT_request_free.cpp $R/src/mpi_fault_simulator/Sim_FT_send.cpp $R/src/mpi_fault_simulator/Sim_FT_test.cpp $R/src/mpi_fault_simulator/Sim_FT_wait.cpp $R/src/mpi_fault_simulator/Sim_FT_waitall.cpp -o "$T/demo" -lmpi -lboost_serialization -lboost_system -lboost_program_options -lboost_date_time -llz4 || exit 3
cd "$T"
timeout 200 mpirun --oversubscribe --bind-to none -np 2 "$T/demo" > out.txt 2>&1; rc=$?
tail -5 out.txt
[ $rc -eq 0 ] && grep -q DONE out.txt && ! grep -q '^FAIL' out.txt
