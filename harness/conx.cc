// Drives ConstrainedOperator on explicit small systems.
// usage: conx CASES OUT     (any number of processes)
// a case line:  n  A(n*n)  nc { i k {m w}*k h }*nc  x(n)  b(n)  first(np)   [row ownership: first row of each process]
#include <mpi.h>
#include <deal.II/base/mpi.h>
#include <deal.II/base/index_set.h>
#include <deal.II/lac/trilinos_vector.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/base/utilities.h>
#include <deal.II/base/timer.h>
#include <fstream>
#include <sstream>
#include <iostream>
using namespace dealii;
#include "constrained_matrix.h"

using V = TrilinosWrappers::MPI::Vector;
struct Mat
{
  std::vector<double> a; unsigned n;
  void vmult(V &dst, const V &src) const
  {
    Vector<double> s(src); // gathers
    for (auto i : dst.locally_owned_elements()) { double v = 0; for (unsigned j = 0; j < n; ++j) v += a[i * n + j] * s[j]; dst(i) = v; }
    dst.compress(VectorOperation::insert);
  }
};
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  const unsigned rank = Utilities::MPI::this_mpi_process(MPI_COMM_WORLD), np = Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD);
  std::ifstream in(argv[1]); std::ofstream out;
  if (rank == 0) out.open(argv[2]); else out.open(std::string(argv[2]) + "." + std::to_string(rank));
  std::string line;
  while (std::getline(in, line))
    {
      std::istringstream is(line); Mat m; is >> m.n; const unsigned n = m.n; m.a.resize(n * n); for (auto &v : m.a) is >> v;
      unsigned nc; is >> nc; AffineConstraints<double> c;
      std::vector<std::vector<unsigned>> ms(n);
      for (unsigned k = 0; k < nc; ++k)
        { unsigned i, e; is >> i >> e; c.add_line(i); for (unsigned q = 0; q < e; ++q) { unsigned mm; double w; is >> mm >> w; c.add_entry(i, mm, w); ms[i].push_back(mm); } double h; is >> h; c.set_inhomogeneity(i, h); }
      c.close();
      std::vector<double> x(n), b(n); for (auto &v : x) is >> v; for (auto &v : b) is >> v;
      std::vector<unsigned> first(np + 1, n); for (unsigned p = 0; p < np; ++p) is >> first[p];
      IndexSet own(n); own.add_range(first[rank], first[rank + 1]); own.compress();
      IndexSet need(own); for (auto i : own) for (auto q : ms[i]) need.add_index(q); need.compress();
      V src(own, MPI_COMM_WORLD), dst(own, MPI_COMM_WORLD), rhs(own, MPI_COMM_WORLD);
      for (auto i : own) { src(i) = x[i]; rhs(i) = b[i]; dst(i) = 77; }
      src.compress(VectorOperation::insert); rhs.compress(VectorOperation::insert); dst.compress(VectorOperation::insert);
      ConstrainedOperator<V, Mat> op(m, c, need, MPI_COMM_WORLD);
      op.vmult(dst, src);
      op.distribute_rhs(rhs); rhs.compress(VectorOperation::insert);
      Vector<double> d(dst), r(rhs), s(src);
      out << "{\"ev\":\"con\",\"y\":["; for (unsigned i = 0; i < n; ++i) out << (i ? "," : "") << d[i];
      out << "],\"r\":["; for (unsigned i = 0; i < n; ++i) out << (i ? "," : "") << r[i];
      out << "],\"s\":["; for (unsigned i = 0; i < n; ++i) out << (i ? "," : "") << s[i];
      out << "]}\n";
    }
  out << "{\"ev\":\"end\"}\n";
  return 0;
}
