// Stand-ins for the MPI topology queries used by the grid classes: lets one process impersonate any rank of any
// cartesian layout without mpirun. Definitions in the executable take precedence over libmpi's.
#pragma once
#include "vh.hpp"
namespace fc {
struct Comm { std::vector<int> dims; int rank; };
inline int prod(const std::vector<int>& d) { int p = 1; for (int x : d) p *= x; return p; }
// row-major rank order, as MPI_Cart_create uses
inline std::vector<int> coords(const std::vector<int>& d, int r) { std::vector<int> c(d.size()); for (int k = (int)d.size() - 1; k >= 0; --k) { c[k] = r % d[k]; r /= d[k]; } return c; }
inline int rankof(const std::vector<int>& d, const std::vector<int>& c) { int r = 0; for (size_t k = 0; k < d.size(); ++k) r = r * d[k] + c[k]; return r; }
// every call returns a new handle (never freed, so addresses stay distinct)
inline MPI_Comm make(const std::vector<int>& dims, int rank) { return reinterpret_cast<MPI_Comm>(new Comm{dims, rank}); }
inline Comm& C(MPI_Comm c) { return *reinterpret_cast<Comm*>(c); }
}
extern "C" {
int MPI_Topo_test(MPI_Comm, int* s) { *s = MPI_CART; return 0; }
int MPI_Cartdim_get(MPI_Comm c, int* n) { *n = (int)fc::C(c).dims.size(); return 0; }
int MPI_Cart_get(MPI_Comm c, int n, int dims[], int periods[], int co[]) {
  auto& f = fc::C(c); auto x = fc::coords(f.dims, f.rank);
  for (int i = 0; i < n; ++i) { dims[i] = f.dims[i]; periods[i] = 0; co[i] = x[i]; } return 0; }
int MPI_Cart_coords(MPI_Comm c, int r, int n, int co[]) { auto x = fc::coords(fc::C(c).dims, r); for (int i = 0; i < n; ++i) co[i] = x[i]; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = fc::C(c).rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = fc::prod(fc::C(c).dims); return 0; }
}
