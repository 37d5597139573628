// driver: only pulls in the /repo source; contains no code under verification
#include "mpi/MPISystem.cpp"
