// Singular integrals of single elements with exactly prescribed geometry.
// Reads a script: each line "el FE 27 control-point coordinates  eu ev" and
// writes one line of values per element. FE: 0 FE_DGQ(0), 1/2 FE_Q(1/2).
#include "singular_kernel_integral.h"
#include <deal.II/fe/fe_system.h>
#include <deal.II/fe/mapping_fe_field.h>
#include <deal.II/lac/vector.h>
#include <iomanip>
#include <sstream>

static std::vector<unsigned int> lexicographic(const FiniteElement<2, 3> &fe)
{
  // number of the shape function at each node, nodes sorted by (v, u)
  std::vector<std::pair<std::pair<double, double>, unsigned int>> o;
  for (unsigned int i = 0; i < fe.dofs_per_cell; ++i)
    o.push_back({{fe.unit_support_point(i)[1], fe.unit_support_point(i)[0]}, i});
  std::sort(o.begin(), o.end());
  std::vector<unsigned int> r;
  for (auto &p : o)
    r.push_back(p.second);
  return r;
}

int main(int argc, char **argv)
{
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string   line;
  while (std::getline(in, line))
    {
      std::istringstream s(line);
      std::string        c;
      if (!(s >> c))
        continue;
      unsigned int           order;
      std::vector<Point<3>>  P(9);
      Point<2>               eta;
      s >> order;
      for (auto &p : P)
        s >> p[0] >> p[1] >> p[2];
      s >> eta[0] >> eta[1];
      AssertThrow(bool(s), ExcMessage("bad line " + line));

      Triangulation<2, 3>      tria;
      std::vector<CellData<2>> cells(1);
      for (unsigned int i = 0; i < 4; ++i)
        cells[0].vertices[i] = i;
      tria.create_triangulation({P[0], P[2], P[6], P[8]}, cells, SubCellData());

      FESystem<2, 3>   gfe(FE_Q<2, 3>(2), 3);
      DoFHandler<2, 3> gdh(tria);
      gdh.distribute_dofs(gfe);
      Vector<double>                       pos(gdh.n_dofs());
      std::vector<types::global_dof_index> ids(gfe.dofs_per_cell);
      gdh.begin_active()->get_dof_indices(ids);
      for (unsigned int i = 0; i < gfe.dofs_per_cell; ++i)
        {
          const Point<2> u = gfe.unit_support_point(i);
          pos(ids[i]) = P[3 * std::lround(2 * u[1]) + std::lround(2 * u[0])][gfe.system_to_component_index(i).first];
        }
      MappingFEField<2, 3> mapping(gdh, pos);

      std::unique_ptr<FiniteElement<2, 3>> fe;
      if (order == 0)
        fe.reset(new FE_DGQ<2, 3>(0));
      else
        fe.reset(new FE_Q<2, 3>(order));
      DoFHandler<2, 3> dh(tria);
      dh.distribute_dofs(*fe);
      const auto                                 cell = dh.begin_active();
      const DoFHandler<2, 3>::active_cell_iterator acell = cell;
      SingularKernelIntegral<3> ski(acell, *fe, mapping, eta);
      const auto V = ski.evaluate_VkNj_integrals();
      const auto W = ski.evaluate_WkNj_integrals();
      const auto b = ski.evaluate_free_term_b();
      // a second evaluation must not depend on the first
      const auto V2 = ski.evaluate_VkNj_integrals();
      out << std::setprecision(17) << "{\"ev\":\"el\",\"V\":[";
      const auto lx   = lexicographic(*fe);
      const auto vecs = [&](const std::vector<Tensor<1, 3>> &x) {
        for (unsigned int j = 0; j < lx.size(); ++j)
          out << (j ? ",[" : "[") << x[lx[j]][0] << "," << x[lx[j]][1] << "," << x[lx[j]][2] << "]";
      };
      vecs(V);
      out << "],\"W\":[";
      vecs(W);
      out << "],\"b\":[" << b[0] << "," << b[1] << "," << b[2] << "],\"same\":" << (V == V2 ? "true" : "false") << "}" << std::endl;
    }
  out << "{\"ev\":\"end\"}" << std::endl;
}
