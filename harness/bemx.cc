// Command-driven harness around the real pi-BEM classes.  One translation unit
// per space dimension (-DBEMX_DIM=2|3).  It reads a script, drives the real
// objects through their public operations and writes one JSON line per dump.
#include <deal.II/base/mpi.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/base/parameter_acceptor.h>
#include <deal.II/base/parsed_function.h>
#include <deal.II/base/work_stream.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/grid/grid_out.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/trilinos_vector.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/opencascade/utilities.h>
#include <deal.II/opencascade/manifold_lib.h>

#include <complex>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#define private public
#define protected public
#include "bem_fma.h"
#include "bem_problem.h"
#include "boundary_conditions.h"
#include "computational_domain.h"
#include "constrained_matrix.h"
#include "driver.h"
#include "octree_block.h"
#undef private
#undef protected

using namespace dealii;
constexpr int dim = BEMX_DIM;

struct J
{
  std::ostringstream o;
  bool first = true;
  J(const std::string &ev) { o.precision(17); o << "{\"ev\":\"" << ev << "\""; first = false; }
  void key(const char *k) { o << ",\"" << k << "\":"; }
  template <class T> void num(const char *k, const T &v) { key(k); o << v; }
  void real(const char *k, double v) { key(k); re(v); }
  void re(double v)
  {
    if (std::isnan(v)) o << "\"nan\"";
    else if (std::isinf(v)) o << (v > 0 ? "\"inf\"" : "\"-inf\"");
    else o << v;
  }
  void str(const char *k, const std::string &s)
  {
    key(k); o << '"';
    for (char c : s) { if (c == '"' || c == '\\') o << '\\' << c; else if (c == '\n') o << "\\n"; else if ((unsigned char)c >= 32) o << c; }
    o << '"';
  }
  template <class C> void ints(const char *k, const C &c) { key(k); ilist(c); }
  template <class C> void ilist(const C &c)
  {
    o << '['; bool f = true;
    for (const auto &x : c) { if (!f) o << ','; f = false; o << x; }
    o << ']';
  }
  template <class V> void reals(const char *k, const V &v, size_t n)
  {
    key(k); o << '[';
    for (size_t i = 0; i < n; ++i) { if (i) o << ','; re(v[i]); }
    o << ']';
  }
  template <int D> void pt(const Tensor<1, D> &p)
  {
    o << '[';
    for (int d = 0; d < D; ++d) { if (d) o << ','; re(p[d]); }
    o << ']';
  }
};

static std::ofstream out;
static void emit(J &j) { out << j.o.str() << "}\n"; out.flush(); }

struct Session
{
  std::unique_ptr<Driver<dim>> driver;
  std::unique_ptr<ComputationalDomain<dim>> cd;
  std::unique_ptr<BEMProblem<dim>> bp;
  std::unique_ptr<BoundaryConditions<dim>> bc;
  ~Session() { clear(); }
  void watching(const std::string &c, std::istringstream &is);
  void staging(bool on);
  void clear() { bc.reset(); bp.reset(); cd.reset(); ParameterAcceptor::clear(); }
  void params(const std::string &f)
  {
    ParameterHandler prm;
    ParameterAcceptor::declare_all_parameters(prm);
    prm.parse_input(f, "", true);
    ParameterAcceptor::parse_all_parameters(prm);
  }
  void fresh(const std::string &f)
  {
    clear();
    cd = std::make_unique<ComputationalDomain<dim>>(MPI_COMM_WORLD);
    bp = std::make_unique<BEMProblem<dim>>(*cd, MPI_COMM_WORLD);
    bc = std::make_unique<BoundaryConditions<dim>>(*cd, *bp, MPI_COMM_WORLD);
    params(f);
  }

  using cell_it = typename DoFHandler<dim - 1, dim>::active_cell_iterator;

  // ---- dumps -----------------------------------------------------------
  void dump_mesh()
  {
    J j("mesh");
    auto &t = cd->tria;
    j.num("n", t.n_active_cells());
    j.num("levels", t.n_levels());
    j.num("nv", t.n_used_vertices());
    j.key("cells"); j.o << '[';
    bool f = true;
    for (auto &c : t.active_cell_iterators())
      {
        if (!f) j.o << ','; f = false;
        j.o << "{\"id\":\"" << c->id().to_string() << "\",\"m\":" << c->material_id()
            << ",\"man\":" << (int)c->manifold_id() << ",\"s\":" << c->subdomain_id() << ",\"l\":" << c->level() << ",\"v\":[";
        for (unsigned int v = 0; v < GeometryInfo<dim - 1>::vertices_per_cell; ++v)
          { if (v) j.o << ','; j.o << c->vertex_index(v); }
        j.o << "],\"p\":[";
        for (unsigned int v = 0; v < GeometryInfo<dim - 1>::vertices_per_cell; ++v)
          { if (v) j.o << ','; j.pt<dim>(c->vertex(v)); }
        j.o << "],\"b\":[";
        for (unsigned int k = 0; k < GeometryInfo<dim - 1>::faces_per_cell; ++k)
          { if (k) j.o << ','; j.o << (c->face(k)->at_boundary() ? 1 : 0); }
        j.o << "]";
        // hanging side: neighbour refined?
        j.o << ",\"nb\":[";
        for (unsigned int k = 0; k < GeometryInfo<dim - 1>::faces_per_cell; ++k)
          { if (k) j.o << ','; j.o << (c->face(k)->at_boundary() ? -1 : (c->face(k)->has_children() ? 1 : (c->neighbor_is_coarser(k) ? 2 : 0))); }
        j.o << "]}";
      }
    j.o << ']';
    emit(j);
  }
  // the whole refinement hierarchy
  void dump_tree()
  {
    J j("tree");
    j.key("cells"); j.o << '['; bool f = true;
    for (auto &c : cd->tria.cell_iterators())
      {
        if (!f) j.o << ','; f = false;
        j.o << "{\"id\":\"" << c->id().to_string() << "\",\"m\":" << c->material_id() << ",\"man\":" << (int)c->manifold_id() << ",\"rc\":" << (c->has_children() ? (int)(std::uint8_t)c->refinement_case() : 0)
            << ",\"a\":" << (c->is_active() ? 1 : 0) << ",\"ext\":[";
        for (int d = 0; d < dim - 1; ++d) { if (d) j.o << ','; if constexpr (dim == 3) j.re(c->extent_in_direction(d)); else j.re(c->diameter()); }
        j.o << "],\"p\":[";
        for (unsigned int v = 0; v < GeometryInfo<dim - 1>::vertices_per_cell; ++v) { if (v) j.o << ','; j.pt<dim>(c->vertex(v)); }
        j.o << "],\"bd\":" << (c->at_boundary() ? 1 : 0) << '}';
      }
    j.o << ']';
    j.num("levels", cd->tria.n_levels());
    emit(j);
  }
  std::vector<Point<dim>> spts()
  {
    std::vector<Point<dim>> sp(bp->dh.n_dofs());
    DoFTools::map_dofs_to_support_points<dim - 1, dim>(*bp->mapping, bp->dh, sp);
    return sp;
  }
  void dump_dofs()
  {
    J j("dofs");
    auto &b = *bp;
    const unsigned n = b.dh.n_dofs(), nv = b.gradient_dh.n_dofs();
    j.num("n", n); j.num("nv", nv); j.num("rank", b.this_mpi_process); j.num("np", b.n_mpi_processes);
    auto sp = spts();
    std::vector<Point<dim>> vsp(nv);
    DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, b.gradient_dh, vsp);
    j.key("x"); j.o << '['; for (unsigned i = 0; i < n; ++i) { if (i) j.o << ','; j.pt<dim>(sp[i]); } j.o << ']';
    j.key("vx"); j.o << '['; for (unsigned i = 0; i < nv; ++i) { if (i) j.o << ','; j.pt<dim>(vsp[i]); } j.o << ']';
    // component of every vector dof
    std::vector<int> comp(nv, -1);
    { std::vector<types::global_dof_index> ld(b.gradient_fe->dofs_per_cell);
      for (auto &c : b.gradient_dh.active_cell_iterators()) { c->get_dof_indices(ld);
        for (unsigned k = 0; k < ld.size(); ++k) comp[ld[k]] = b.gradient_fe->system_to_component_index(k).first; } }
    j.ints("vcomp", comp);
    std::vector<int> edge(n, 0);
    // support of each dof: cells (active index), material
    j.key("cells"); j.o << '[';
    bool f = true;
    std::vector<types::global_dof_index> ld(b.fe->dofs_per_cell);
    for (auto &c : b.dh.active_cell_iterators())
      {
        if (!f) j.o << ','; f = false;
        c->get_dof_indices(ld);
        j.o << "{\"m\":" << c->material_id() << ",\"s\":" << c->subdomain_id() << ",\"d\":"; j.ilist(ld);
        // which local dofs lie on boundary faces
        std::set<unsigned> bd;
        const auto &usp = b.fe->get_unit_support_points();
        for (unsigned k = 0; k < GeometryInfo<dim - 1>::faces_per_cell; ++k)
          if (c->face(k)->at_boundary())
            for (unsigned q = 0; q < ld.size(); ++q)
              { double v = usp[q][k / 2]; if (std::abs(v - (k % 2)) < 1e-12) bd.insert(q); }
        j.o << ",\"b\":"; j.ilist(bd); j.o << '}';
        if (b.fe->dofs_per_vertex) for (auto q : bd) edge[ld[q]] = 1;
      }
    j.o << ']';
    j.ints("edge", edge);
    // vector unknowns of every cell, same cell order
    j.key("vcells"); j.o << '['; f = true;
    { std::vector<types::global_dof_index> vd(b.gradient_fe->dofs_per_cell);
      for (auto &c : b.gradient_dh.active_cell_iterators()) { if (!f) j.o << ','; f = false; c->get_dof_indices(vd); j.ilist(vd); } }
    j.o << ']';
    j.key("cids"); j.o << '['; f = true;
    for (auto &c : b.dh.active_cell_iterators()) { if (!f) j.o << ','; f = false; j.o << '"' << c->id().to_string() << '"'; }
    j.o << ']';
    std::vector<types::global_dof_index> own, vown, gh;
    for (auto i : b.this_cpu_set) own.push_back(i);
    for (auto i : b.vector_this_cpu_set) vown.push_back(i);
    for (auto i : b.ghosted_set) gh.push_back(i);
    j.ints("own", own); j.ints("vown", vown); j.ints("ghost", gh);
    j.ints("o2s", b.original_to_sub_wise); j.ints("s2o", b.sub_wise_to_original);
    j.ints("vo2s", b.vec_original_to_sub_wise); j.ints("vs2o", b.vec_sub_wise_to_original);
    Vector<double> dn(b.dirichlet_nodes), nn(b.neumann_nodes);
    j.reals("dir", dn, n); j.reals("neu", nn, n);
    j.num("have_dir", (b.have_dirichlet_bc ? 1 : 0));
    j.key("dbl"); j.o << '[';
    for (unsigned i = 0; i < b.double_nodes_set.size(); ++i) { if (i) j.o << ','; j.ilist(b.double_nodes_set[i]); }
    j.o << ']';
    j.ints("dids", cd->dirichlet_boundary_ids); j.ints("nids", cd->neumann_boundary_ids);
    emit(j);
  }
  void dump_constraints()
  {
    J j("constr");
    auto &b = *bp; auto &c = b.constraints;
    const unsigned n = b.dh.n_dofs();
    j.num("n", n); j.num("cont", (b.continuos_gradient ? 1 : 0));
    AffineConstraints<double> hn; DoFTools::make_hanging_node_constraints(b.dh, hn); hn.close();
    auto dumpc = [&](const char *k, const AffineConstraints<double> &c) {
      j.key(k); j.o << '['; bool f = true;
      for (unsigned i = 0; i < n; ++i) if (c.is_constrained(i))
        {
          if (!f) j.o << ','; f = false;
          j.o << "{\"i\":" << i << ",\"e\":[";
          auto *e = c.get_constraint_entries(i);
          if (e) for (unsigned q = 0; q < e->size(); ++q) { if (q) j.o << ','; j.o << '[' << (*e)[q].first << ','; j.re((*e)[q].second); j.o << ']'; }
          j.o << "],\"h\":"; j.re(c.get_inhomogeneity(i)); j.o << '}';
        }
      j.o << ']';
    };
    dumpc("c", c); dumpc("hn", hn);
    Vector<double> nor(b.vector_normals_solution), sg(b.vector_surface_gradients_solution), tr(bc->tmp_rhs);
    auto scal = [&](const char *k, const Vector<double> &v) {
      j.key(k); j.o << '[';
      for (unsigned i = 0; i < n; ++i) { if (i) j.o << ','; j.o << '[';
        for (int d = 0; d < dim; ++d) { if (d) j.o << ','; j.re(v[b.vec_original_to_sub_wise[b.sub_wise_to_original[i] + d * n]]); } j.o << ']'; }
      j.o << ']'; };
    if (b.gradient_dh.n_dofs() == n * dim) { scal("nor", nor); scal("sg", sg); }
    j.reals("rhs", tr, n);
    emit(j);
  }
  void dump_sol()
  {
    J j("sol");
    auto &b = *bp; const unsigned n = b.dh.n_dofs();
    Vector<double> p(bc->phi), d(bc->dphi_dn), a(b.alpha), s(b.sol), r(b.system_rhs), t(bc->tmp_rhs), ha(b.hyp_alpha);
    auto sp = spts();
    j.num("n", n); j.num("rank", b.this_mpi_process);
    j.key("x"); j.o << '['; for (unsigned i = 0; i < n; ++i) { if (i) j.o << ','; j.pt<dim>(sp[i]); } j.o << ']';
    j.reals("phi", p, n); j.reals("dphi", d, n); j.reals("alpha", a, n); j.reals("sol", s, n); j.reals("rhs", r, n); j.reals("tmp", t, n);
    j.reals("halpha", ha, n);
    Vector<double> dn(b.dirichlet_nodes); j.reals("dir", dn, n);
    Vector<double> nor(b.vector_normals_solution);
    if (b.gradient_dh.n_dofs() == n * dim)
      {
        j.key("nor"); j.o << '[';
        for (unsigned i = 0; i < n; ++i) { if (i) j.o << ','; j.o << '[';
          for (int e = 0; e < dim; ++e) { if (e) j.o << ','; j.re(nor[b.vec_original_to_sub_wise[b.sub_wise_to_original[i] + e * n]]); } j.o << ']'; }
        j.o << ']';
      }
    // boundary functions at the nodes
    std::vector<double> pv(n); std::vector<Vector<double>> wv(n, Vector<double>(dim));
    for (unsigned i = 0; i < n; ++i) { pv[i] = bc->potential.value(sp[i]); bc->wind.vector_value(sp[i], wv[i]); }
    j.reals("pot", pv, n);
    j.key("wind"); j.o << '['; for (unsigned i = 0; i < n; ++i) { if (i) j.o << ','; j.o << '['; for (int e = 0; e < dim; ++e) { if (e) j.o << ','; j.re(wv[i][e]); } j.o << ']'; } j.o << ']';
    j.num("steps", b.solver_control.last_step()); j.real("res", b.solver_control.last_value()); j.real("tol", b.solver_control.tolerance());
    emit(j);
  }
  // free-term coefficients
  void dump_coef()
  {
    J j("coef"); const unsigned n = bp->dh.n_dofs(); auto sp = spts();
    Vector<double> a(bp->alpha);
    j.num("n", n); j.key("x"); j.o << '['; for (unsigned i = 0; i < n; ++i) { if (i) j.o << ','; j.pt<dim>(sp[i]); } j.o << ']';
    j.reals("alpha", a, n);
    emit(j);
  }
  void dump_vec(const char *name, const TrilinosWrappers::MPI::Vector &tv)
  {
    // a vector-valued field, one row per vector dof: location, component, value
    J j("field"); j.str("name", name);
    auto &b = *bp; const unsigned nv = b.gradient_dh.n_dofs();
    Vector<double> v(tv);
    std::vector<Point<dim>> vsp(nv);
    DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, b.gradient_dh, vsp);
    std::vector<int> comp(nv, -1), mat(nv, -1), cellid(nv, -1); std::vector<types::global_dof_index> ld(b.gradient_fe->dofs_per_cell);
    int ci = 0;
    for (auto &c : b.gradient_dh.active_cell_iterators()) { c->get_dof_indices(ld);
      for (unsigned k = 0; k < ld.size(); ++k) { comp[ld[k]] = b.gradient_fe->system_to_component_index(k).first; mat[ld[k]] = c->material_id(); cellid[ld[k]] = ci; } ++ci; }
    j.ints("comp", comp); j.ints("mat", mat); j.ints("cell", cellid);
    j.key("x"); j.o << '['; for (unsigned i = 0; i < nv; ++i) { if (i) j.o << ','; j.pt<dim>(vsp[i]); } j.o << ']';
    j.reals("v", v, nv);
    emit(j);
  }
  // norms of the difference between computed and prescribed fields
  void dump_norms()
  {
    auto &b = *bp; const unsigned n = b.dh.n_dofs(), nv = b.gradient_dh.n_dofs();
    Vector<double> p(bc->phi), d(bc->dphi_dn), g(b.vector_gradients_solution), nor(b.vector_normals_solution);
    auto sp = spts();
    double pinf = 0, dinf = 0, ginf = 0;
    Vector<double> de(n);
    for (unsigned i = 0; i < n; ++i)
      {
        Vector<double> w(dim); bc->wind.vector_value(sp[i], w);
        double e = 0;
        for (int k = 0; k < dim; ++k) { const unsigned v = b.vec_original_to_sub_wise[b.sub_wise_to_original[i] + k * n]; e += w[k] * nor[v]; ginf = std::max(ginf, std::abs(g[v] - w[k])); }
        de[i] = d[i] - e; dinf = std::max(dinf, std::abs(de[i]));
        pinf = std::max(pinf, std::abs(p[i] - bc->potential.value(sp[i])));
      }
    const QGauss<dim - 1> q(2 * (2 * b.fe->degree + 1));
    FEValues<dim - 1, dim> fv(*b.mapping, *b.fe, q, update_values | update_JxW_values | update_quadrature_points), gv(*b.mapping, *b.gradient_fe, q, update_values);
    std::vector<types::global_dof_index> ld(b.fe->dofs_per_cell), gd(b.gradient_fe->dofs_per_cell);
    double p2 = 0, d2 = 0, g2 = 0;
    auto gc = b.gradient_dh.begin_active();
    for (auto &c : b.dh.active_cell_iterators())
      {
        fv.reinit(c); gv.reinit(gc); c->get_dof_indices(ld); gc->get_dof_indices(gd);
        for (unsigned k = 0; k < q.size(); ++k)
          {
            const auto x = fv.quadrature_point(k);
            double a = -bc->potential.value(x), e = 0; Vector<double> w(dim); bc->wind.vector_value(x, w);
            for (unsigned i = 0; i < ld.size(); ++i) { a += p[ld[i]] * fv.shape_value(i, k); e += de[ld[i]] * fv.shape_value(i, k); }
            std::vector<double> u(dim, 0.);
            for (unsigned i = 0; i < gd.size(); ++i) u[b.gradient_fe->system_to_component_index(i).first] += g[gd[i]] * gv.shape_value(i, k);
            p2 += a * a * fv.JxW(k); d2 += e * e * fv.JxW(k);
            for (int m = 0; m < dim; ++m) g2 += (u[m] - w[m]) * (u[m] - w[m]) * fv.JxW(k);
          }
        ++gc;
      }
    J j("norms"); j.num("n", n); j.num("nv", nv); j.num("cells", cd->tria.n_active_cells());
    j.real("pinf", pinf); j.real("p2", std::sqrt(p2)); j.real("dinf", dinf); j.real("d2", std::sqrt(d2)); j.real("ginf", ginf); j.real("g2", std::sqrt(g2));
    emit(j);
  }
  // relation of a recovered gradient field with phi, dphi_dn: per cell normals
  void dump_cellnormals()
  {
    J j("cellnormals");
    auto &b = *bp;
    FEValues<dim - 1, dim> fv(*b.mapping, *b.fe, QGauss<dim - 1>(2), update_normal_vectors | update_quadrature_points | update_JxW_values);
    j.key("c"); j.o << '['; bool f = true;
    for (auto &c : b.dh.active_cell_iterators())
      { fv.reinit(c); if (!f) j.o << ','; f = false; double a = 0; for (unsigned q = 0; q < fv.n_quadrature_points; ++q) a += fv.JxW(q);
        j.o << "{\"a\":"; j.re(a); j.o << ",\"n\":"; j.pt<dim>(fv.normal_vector(0)); j.o << ",\"q\":"; j.pt<dim>(Tensor<1,dim>(fv.quadrature_point(0))); j.o << '}'; }
    j.o << ']';
    emit(j);
  }
  // dense matrices of the direct method (all rows, gathered)
  void dump_dense()
  {
    J j("dense"); auto &b = *bp; const unsigned n = b.dh.n_dofs();
    j.num("n", n);
    j.key("N"); dense(j, b.neumann_matrix, n); j.key("D"); dense(j, b.dirichlet_matrix, n);
    emit(j);
  }
  void dense(J &j, const TrilinosWrappers::SparseMatrix &m, unsigned n)
  {
    j.o << '[';
    bool f = true;
    for (auto i : bp->this_cpu_set) { if (!f) j.o << ','; f = false; j.o << "[" << i << ",["; for (unsigned k = 0; k < n; ++k) { if (k) j.o << ','; j.re(m.el(i, k)); } j.o << "]]"; }
    j.o << ']';
  }
  TrilinosWrappers::MPI::Vector mk() { TrilinosWrappers::MPI::Vector v; v.reinit(bp->this_cpu_set, MPI_COMM_WORLD); return v; }
  // pseudo random nodal vector depending on the location only
  TrilinosWrappers::MPI::Vector rvec(unsigned seed)
  {
    auto v = mk(); auto sp = spts();
    for (auto i : bp->this_cpu_set)
      { double h = seed * 0.7548776662; for (int d = 0; d < dim; ++d) h += std::sin((d + 1.3) * 12.9898 * sp[i][d] + seed * (d + 1)) * 43.758; v[i] = 2 * (h - std::floor(h)) - 1; }
    v.compress(VectorOperation::insert);
    return v;
  }
  void dump_apply(unsigned seed)
  {
    auto &b = *bp; const unsigned n = b.dh.n_dofs();
    auto v = rvec(seed); auto w = rvec(seed + 1000);
    auto r1 = mk(), r2 = mk(), r3 = mk(), lin = mk(), cr = mk(), cr2 = mk();
    b.vmult(r1, v); b.compute_rhs(r2, v);
    // linearity: A(v + 2 w) - A v - 2 A w
    auto vw = mk(); vw = v; vw.add(2., w); b.vmult(lin, vw); b.vmult(r3, w);
    lin.add(-1., r1); lin.add(-2., r3);
    ConstrainedOperator<TrilinosWrappers::MPI::Vector, BEMProblem<dim>> cc(b, b.constraints, b.constr_cpu_set, MPI_COMM_WORLD);
    cc.vmult(cr, v);
    auto dr = mk(); dr = w; cc.distribute_rhs(dr); dr.compress(VectorOperation::insert);
    J j("apply"); j.num("seed", seed); j.num("n", n);
    Vector<double> lv(v), lw(w), a(r1), c(r2), d(lin), e(cr), g(dr);
    j.reals("v", lv, n); j.reals("w", lw, n); j.reals("A", a, n); j.reals("B", c, n); j.reals("lin", d, n); j.reals("C", e, n); j.reals("R", g, n);
    emit(j);
  }
  // residual of the constrained system at the returned unknown
  void dump_residual()
  {
    auto &b = *bp;
    auto r = mk();
    ConstrainedOperator<TrilinosWrappers::MPI::Vector, BEMProblem<dim>> cc(b, b.constraints, b.constr_cpu_set, MPI_COMM_WORLD);
    cc.vmult(r, b.sol); r.add(-1., b.system_rhs);
    J j("residual"); j.real("r", r.l2_norm()); j.real("b", b.system_rhs.l2_norm()); j.real("x", b.sol.l2_norm());
    j.num("steps", b.solver_control.last_step()); j.num("max", b.solver_control.max_steps()); j.real("tol", b.solver_control.tolerance()); j.real("res", b.solver_control.last_value());
    j.str("prec", b.preconditioner_type); j.str("method", b.solution_method);
    emit(j);
  }
  // fast operator columns: result of the two integral operators for unit vectors
  void fma_prepare() { bp->fma.generate_octree_blocking(); bp->fma.direct_integrals(); bp->fma.multipole_integrals(); }
  void dump_fmacols(unsigned stride)
  {
    if constexpr (dim == 3)
      {
        auto &b = *bp; const unsigned n = b.dh.n_dofs();
        J j("fmacols"); j.num("n", n); j.key("cols"); j.o << '['; bool f = true;
        for (unsigned c = 0; c < n; c += stride)
          {
            auto u = mk(), z = mk(), rN = mk(), rD = mk();
            if (b.this_cpu_set.is_element(c)) u[c] = 1.;
            u.compress(VectorOperation::insert);
            b.fma.generate_multipole_expansions(u, u);
            b.fma.multipole_matr_vect_products(u, u, rN, rD);
            Vector<double> a(rN), d(rD);
            if (!f) j.o << ','; f = false; j.o << '{' << "\"c\":" << c; j.reals("N", a, n); j.reals("D", d, n); j.o << '}';
          }
        j.o << ']';
        emit(j);
      }
  }
  void dump_octree()
  {
    auto &b = *bp; auto &F = b.fma;
    J j("octree");
    const unsigned n = b.dh.n_dofs();
    auto sp = spts();
    j.num("n", n); j.num("maxn", F.max_num_nodes_per_block); j.num("levels", F.num_octree_levels); j.num("nb", F.num_blocks);
    j.key("x"); j.o << '['; for (unsigned i = 0; i < n; ++i) { if (i) j.o << ','; j.pt<dim>(sp[i]); } j.o << ']';
    j.key("dbl"); j.o << '['; for (unsigned i = 0; i < n; ++i) { if (i) j.o << ','; j.ilist(b.double_nodes_set[i]); } j.o << ']';
    // own numbering of quadrature points, recomputed independently
    std::map<cell_it, unsigned> base; unsigned nq = 0;
    FEValues<dim - 1, dim> fv(*b.mapping, *b.fe, *b.quadrature, update_quadrature_points);
    std::vector<Point<dim>> qp; std::vector<std::vector<types::global_dof_index>> cd_; std::vector<types::global_dof_index> ld(b.fe->dofs_per_cell);
    j.key("cells"); j.o << '['; bool f = true;
    for (auto &c : b.dh.active_cell_iterators())
      { fv.reinit(c); base[c] = nq; c->get_dof_indices(ld); for (auto &p : fv.get_quadrature_points()) { qp.push_back(p); ++nq; }
        if (!f) j.o << ','; f = false; j.o << "{\"q0\":" << base[c] << ",\"nq\":" << fv.n_quadrature_points << ",\"d\":"; j.ilist(ld); j.o << '}'; }
    j.o << ']';
    j.key("q"); j.o << '['; for (unsigned i = 0; i < nq; ++i) { if (i) j.o << ','; j.pt<dim>(qp[i]); } j.o << ']';
    j.ints("childless", F.childlessList); j.ints("start", F.startLevel); j.ints("end", F.endLevel);
    j.key("filled"); j.o << '['; for (unsigned l = 0; l < F.dofs_filled_blocks.size(); ++l) { if (l) j.o << ','; j.ilist(F.dofs_filled_blocks[l]); } j.o << ']';
    j.key("blocks"); j.o << '[';
    for (unsigned k = 0; k < F.num_blocks; ++k)
      {
        auto *B = F.blocks[k];
        if (k) j.o << ',';
        j.o << "{\"lev\":" << B->level << ",\"par\":" << B->GetParentId() << ",\"pm\":"; j.pt<dim>(B->GetPMin()); j.o << ",\"de\":"; j.re(B->GetDelta());
        std::vector<types::global_dof_index> ch; for (unsigned c = 0; c < B->GetBlockChildrenNum(); ++c) ch.push_back(B->GetChildId(c));
        j.o << ",\"ch\":"; j.ilist(ch); j.o << ",\"nodes\":"; j.ilist(B->GetBlockNodeList());
        std::vector<long> qs; for (auto &e : B->GetBlockQuadPointsList()) { auto it = base.find(e.first); for (auto q : e.second) qs.push_back(it == base.end() ? -1 : (long)(it->second + q)); }
        j.o << ",\"qs\":"; j.ilist(qs);
        j.o << ",\"il\":["; for (unsigned s = 0; s < B->GetIntListSize(); ++s) { if (s) j.o << ','; j.ilist(B->GetIntList(s)); } j.o << ']';
        j.o << ",\"nl\":["; for (unsigned s = 0; s < B->GetNonIntListSize(); ++s) { if (s) j.o << ','; j.ilist(B->GetNonIntList(s)); } j.o << ']';
        j.o << ",\"nnl\":" << B->NumNearNeighLevels() << '}';
      }
    j.o << ']';
    emit(j);
  }
  void dump_params(ComputationalDomain<dim> &c, BEMProblem<dim> &b, BoundaryConditions<dim> &q, int global)
  {
    J j("params"); if (global >= 0) j.num("global", global);
    j.str("grid", c.input_grid_name); j.str("fmt", c.input_grid_format); j.num("cycles", c.n_cycles); j.num("pre", c.pre_global_refinements); j.real("aspect", c.max_element_aspect_ratio);
    j.num("cad", (c.use_cad_surface_and_curves ? 1 : 0)); j.num("curv", (c.surface_curvature_refinement ? 1 : 0)); j.real("cpc", c.cells_per_circle); j.num("maxcurv", c.max_curvature_ref_cycles);
    j.real("cadtol", c.cad_to_projectors_tolerance_ratio); j.num("spheroid", (c.spheroid_bool ? 1 : 0)); j.real("ax", c.spheroid_x_axis); j.real("ay", c.spheroid_y_axis); j.real("az", c.spheroid_z_axis);
    j.str("cadpath", c.input_cad_path); j.ints("dids", c.dirichlet_boundary_ids); j.ints("nids", c.neumann_boundary_ids);
    j.str("prec", b.preconditioner_type); j.str("method", b.solution_method); j.num("nquad", b.quadrature->size()); j.num("qorder", b.quadrature_order); j.num("sorder", b.singular_quadrature_order);
    j.str("maptype", b.mapping_type); j.num("mapdeg", b.mapping_degree); j.num("contgrad", (b.continuos_gradient ? 1 : 0)); j.str("sfe", b.scalar_fe_type); j.num("sord", b.scalar_fe_order); j.str("vfe", b.vector_fe_type); j.num("vord", b.vector_fe_order);
    j.real("coarsen", b.coarsening_threshold); j.real("refine", b.refinement_threshold); j.num("maxsteps", b.solver_control.max_steps()); j.real("tol", b.solver_control.tolerance());
    j.num("trunc", b.fma.trunc_order); j.num("levels", b.fma.num_octree_levels); j.num("maxn", b.fma.max_num_nodes_per_block); j.num("gran", b.fma.tbb_granularity);
    j.str("out", q.output_file_name);
    Point<dim> p; for (int d = 0; d < dim; ++d) p[d] = 0.25 * (d + 1);
    Vector<double> w(dim); q.wind.vector_value(p, w);
    j.real("pot", q.potential.value(p)); j.reals("wind", w, dim);
    emit(j);
  }
  template <class B> static auto set_band(B &b, unsigned k, int) -> decltype((b.preconditioner_band = k), true) { b.preconditioner_band = k; return true; }
  template <class B> static bool set_band(B &, unsigned, long) { return false; }
  void manual_refine(std::istringstream &is)
  {
    // flag <mode> <numbers...>  mode: iso | x | y | coarsen ; numbers: active cell ordinals modulo n
    std::string mode; is >> mode; std::vector<long> ids; long k; while (is >> k) ids.push_back(k);
    const long n = cd->tria.n_active_cells(); std::set<long> s; for (auto i : ids) s.insert(((i % n) + n) % n);
    long c = 0;
    for (auto &cell : cd->tria.active_cell_iterators())
      {
        if (s.count(c))
          {
            if (mode == "iso") cell->set_refine_flag();
            else if (mode == "coarsen") cell->set_coarsen_flag();
            else if constexpr (dim == 3) cell->set_refine_flag(RefinementCase<dim - 1>::cut_axis(mode == "x" ? 0 : 1));
            else cell->set_refine_flag();
          }
        ++c;
      }
  }
  // refine until the cells named (id:refinement case) are refined
  void grow(std::istringstream &is)
  {
    std::map<std::string, int> want; std::string w;
    while (is >> w) { auto k = w.rfind('/'); want[w.substr(0, k)] = atoi(w.substr(k + 1).c_str()); }
    for (bool again = true; again;)
      {
        again = false;
        for (auto &c : cd->tria.active_cell_iterators())
          {
            auto it = want.find(c->id().to_string());
            if (it == want.end()) continue;
            again = true;
            if constexpr (dim == 3) c->set_refine_flag(RefinementCase<dim - 1>(it->second)); else c->set_refine_flag();
          }
        if (again) cd->tria.execute_coarsening_and_refinement();
      }
  }
  void run(const std::string &line)
  {
    std::istringstream is(line); std::string c; is >> c;
    auto rd = [&](auto d) { auto v = d; is >> v; return v; };
    if (c.empty() || c[0] == '#') return;
    if (c == "new") fresh(rd(std::string()));
    else if (c == "prm") params(rd(std::string()));
    else if (c == "read") cd->read_domain();
    else if (c == "initial") cd->create_initial_mesh();
    else if (c == "resize") cd->refine_and_resize(rd(0u));
    else if (c == "cond") { if constexpr (dim == 3) cd->conditional_refine_and_resize(rd(0u)); }
    else if (c == "flag") manual_refine(is);
    else if (c == "grow") grow(is);
    else if (c == "exec") { cd->tria.prepare_coarsening_and_refinement(); cd->tria.execute_coarsening_and_refinement(); }
    else if (c == "conform") { unsigned dn = 1, iso = 0; is >> dn >> iso; cd->make_edges_conformal(dn, iso); }
    else if (c == "update") cd->update_triangulation();
    else if (c == "reinit") bp->reinit();
    else if (c == "solve") bc->solve_problem();
    else if (c == "band") { if (!set_band(*bp, rd(100u), 0)) { J j("noband"); emit(j); } }
    else if (c == "trysolve")
      {
        bool ok = true; std::string what;
        try { bc->solve_problem(); }
        catch (SolverControl::NoConvergence &e) { ok = false; what = e.what(); }
        J j("trysolve"); j.num("ok", ok ? 1 : 0); j.num("steps", bp->solver_control.last_step()); j.num("max", bp->solver_control.max_steps());
        j.num("n", bp->dh.n_dofs()); emit(j);
        if (ok) { dump_sol(); dump_constraints(); }
      }
    else if (c == "adapt") bp->adaptive_refinement(bc->get_phi());
    else if (c == "errors") bc->compute_errors();
    else if (c == "output") bc->output_results(bc->output_file_name);
    else if (c == "normals") bp->compute_normals();
    else if (c == "gradients") { bp->compute_gradients(bc->get_phi(), bc->get_dphi_dn()); dump_vec("grad", bp->vector_gradients_solution); }
    else if (c == "hypgradients") { if constexpr (dim == 3) { bp->compute_gradients_hypersingular(bc->get_phi(), bc->get_dphi_dn()); dump_vec("hgrad", bp->vector_gradients_solution); } }
    else if (c == "surfgradients") { bp->compute_surface_gradients(bc->get_phi()); dump_vec("sgrad", bp->vector_surface_gradients_solution); }
    else if (c == "dumpnormals") dump_vec("normals", bp->vector_normals_solution);
    else if (c == "assemble") { bp->assemble_system(); }
    else if (c == "alpha") { bp->compute_alpha(); }
    else if (c == "fmaprepare") fma_prepare();
    else if (c == "octreeonly") { bp->fma.generate_octree_blocking(); }
    else if (c == "mesh") dump_mesh();
    else if (c == "tree") dump_tree();
    else if (c == "dofs") dump_dofs();
    else if (c == "constr") dump_constraints();
    else if (c == "sol") dump_sol();
    else if (c == "coef") dump_coef();
    else if (c == "dense") dump_dense();
    else if (c == "apply") dump_apply(rd(1u));
    else if (c == "residual") dump_residual();
    else if (c == "fmacols") dump_fmacols(rd(1u));
    else if (c == "octree") dump_octree();
    else if (c == "cellnormals") dump_cellnormals();
    else if (c == "norms") dump_norms();
    else if (c == "params") dump_params(*cd, *bp, *bc, -1);
    else if (c == "driverparams")
      {
        // what the components of a run have after reading a parameter file
        clear();
        Driver<dim> d;
        std::string f; bool good = false;
        while (is >> f)
          {
            std::string err;
            try { ParameterHandler fresh; ParameterAcceptor::initialize(f, f + ".used", ParameterHandler::ShortPRM, fresh); good = true; }
            catch (std::exception &e) { err = e.what(); }
            J j("reading"); j.str("file", f); j.str("error", err); emit(j);
            if (good) try { dump_params(d.computational_domain, d.bem_problem, d.boundary_conditions, d.global_refinement); }
            catch (std::exception &e) { J k("params_error"); k.str("what", e.what()); emit(k); }
          }
        ParameterAcceptor::clear();
      }
    else if (c == "mark") { J j("mark"); std::string s; std::getline(is, s); j.str("s", s.size() ? s.substr(1) : s); emit(j); }
    else if (c == "driver")
      {
        // full Driver::run from a parameter file, in the current directory
        clear();
        staging(true);
        { Driver<dim> d; ParameterAcceptor::initialize(rd(std::string()), ""); d.run(); }
        staging(false);
        ParameterAcceptor::clear();
      }
    else if (c == "watch" || c == "unwatch") watching(c, is);
    else throw std::runtime_error("unknown command " + c);
  }
};

#ifdef BEMX_WRAP
#include "wrap.h"
void Session::watching(const std::string &c, std::istringstream &is)
{
  if (c == "watch") { is >> watch.seed >> watch.delay_us; watch.on = true; watch.log.clear(); }
  else { watch.on = false; watch.dump(out); }
}
void Session::staging(bool on) { stage_on = on; }
#else
void Session::watching(const std::string &, std::istringstream &) {}
void Session::staging(bool) {}
#endif

int main(int argc, char **argv)
{
  unsigned threads = argc > 3 ? atoi(argv[3]) : 1;
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, threads);
  unsigned rank = Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);
  std::string of = argv[2]; if (rank) of += "." + std::to_string(rank);
  out.open(of);
  std::ifstream in(argv[1]);
  std::string line;
  try
    {
      Session s;
      while (std::getline(in, line)) s.run(line);
      J j("end"); emit(j);
    }
  catch (std::exception &e)
    {
      J j("exception"); j.str("cmd", line); j.str("what", e.what()); emit(j);
      out.close(); std::_Exit(3);
    }
  return 0;
}
