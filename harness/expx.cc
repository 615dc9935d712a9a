// Drives MultipoleExpansion, LocalExpansion and LocalExpansionCoeff.
// usage: expx SCRIPT OUT
// script:  geo nm {x y z} nl {x y z} ns {x y z nx ny nz} npm {x y z} npl {x y z}
//          hist n { op s t c p x q }        slots a b c (multipole), x y z (local)
//          coeff n { op s t p i v }
#include <deal.II/base/mpi.h>
#include <deal.II/base/point.h>
#include <deal.II/base/utilities.h>
#include <deal.II/lac/full_matrix.h>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
using namespace dealii;
#include "ass_leg_function.h"
#include "local_expansion.h"
#include "local_expansion_coeff.h"
#include "multipole_expansion.h"

static std::map<std::string, int> intern;
static int id(const std::string &s) { return intern.emplace(s, intern.size() + 1).first->second; }
static void put(std::string &s, double v) { if (v == 0) v = 0; s.append((char *)&v, sizeof v); }

struct Src { Point<3> p; Tensor<1, 3> n; bool dip; };
static std::vector<Point<3>> mc, lc, pm, pl;
static std::vector<Src> src;
static AssLegFunction leg;

// contents of an expansion; order taken from the specification (the objects do
// not publish it), 0 for default-constructed ones
template <class E> std::string contents(const E &e, unsigned p)
{
  std::string s; put(s, e.is_zero); put(s, p);
  auto c = e.GetCenter(); for (int d = 0; d < 3; ++d) put(s, c[d]);
  if (p) for (unsigned n = 0; n <= p; ++n) for (unsigned m = 0; m <= n; ++m) { put(s, e.GetCoeff(n, m).real()); put(s, e.GetCoeff(n, m).imag()); }
  return s;
}
static std::string tables()
{
  std::string s;
  for (int n = 0; n <= 10; ++n) for (int m = 0; m <= n; ++m)
    {
      put(s, MultipoleExpansion::A_n_m(n, m)); put(s, LocalExpansion::A_n_m(n, m));
      for (int nn = 0; nn <= 10; ++nn) for (int mm = -nn; mm <= nn; ++mm) put(s, LocalExpansion::mExp_to_lExp_Coeff.get(n, m, nn, mm));
      for (int nn = n; nn <= 10; ++nn) for (int mm = -nn; mm <= nn; ++mm) put(s, LocalExpansion::lExp_to_lExp_Coeff[n][m][nn][mm]);
    }
  return s;
}
static Point<3> rp(std::istream &i) { Point<3> p; i >> p[0] >> p[1] >> p[2]; return p; }

int main(int argc, char **argv)
{
  std::ifstream in(argv[1]); std::ofstream out(argv[2]); out.precision(17);
  std::string line;
  while (std::getline(in, line))
    {
      std::istringstream is(line); std::string c; is >> c;
      if (c == "geo")
        {
          unsigned k;
          mc.clear(); lc.clear(); pm.clear(); pl.clear(); src.clear();
          is >> k; while (k--) mc.push_back(rp(is));
          is >> k; while (k--) lc.push_back(rp(is));
          is >> k; while (k--) { Src s; s.p = rp(is); s.n = rp(is); s.dip = s.n.norm() > 0; src.push_back(s); }
          is >> k; while (k--) pm.push_back(rp(is));
          is >> k; while (k--) pl.push_back(rp(is));
          out << "{\"ev\":\"geo\",\"fix\":" << id(tables()) << "}\n";
        }
      else if (c == "hist")
        {
          unsigned n; is >> n;
          std::map<char, std::unique_ptr<MultipoleExpansion>> M; std::map<char, std::unique_ptr<LocalExpansion>> L; std::map<char, unsigned> P;
          const std::string slots = "abcxyz";
          auto fps = [&] {
            std::ostringstream o; o << '{'; bool f = true;
            for (char s : slots)
              {
                if (!f) o << ','; f = false;
                std::string t;
                if (M.count(s)) t = contents(*M[s], P[s]); else if (L.count(s)) t = contents(*L[s], P[s]);
                o << '"' << s << "\":" << (t.empty() ? 0 : id(t));
              }
            o << '}'; return o.str(); };
          std::ostringstream fp, fd; fd.precision(12); fp << '[' << fps(); fd << '[';
          for (unsigned i = 0; i < n; ++i)
            {
              std::string op; char s, t; unsigned ce, p, x; double q; is >> op >> s >> t >> ce >> p >> x >> q;
              const bool m = s < 'm';
              if (op == "mnew") { M[s] = std::make_unique<MultipoleExpansion>(p, mc[ce - 1], &leg); P[s] = p; }
              else if (op == "lnew") { L[s] = std::make_unique<LocalExpansion>(p, lc[ce - 1], &leg); P[s] = p; }
              else if (op == "mdef") { M[s] = std::make_unique<MultipoleExpansion>(); P[s] = 0; }
              else if (op == "ldef") { L[s] = std::make_unique<LocalExpansion>(); P[s] = 0; }
              else if (op == "src") { if (src[x - 1].dip) M[s]->AddNormDer(q, src[x - 1].p, src[x - 1].n); else M[s]->Add(q, src[x - 1].p); }
              else if (op == "mcopy") { M[s] = std::make_unique<MultipoleExpansion>(*M[t]); P[s] = P[t]; }
              else if (op == "lcopy") { L[s] = std::make_unique<LocalExpansion>(*L[t]); P[s] = P[t]; }
              else if (op == "massign") { *M[s] = *M[t]; P[s] = P[t]; }
              else if (op == "lassign") { *L[s] = *L[t]; P[s] = P[t]; }
              else if (op == "mscale") M[s]->Add(*M[t], q);
              else if (op == "madd") M[s]->Add(*M[t]);
              else if (op == "ladd") L[s]->Add(*L[t]);
              else if (op == "lm") L[s]->Add(*M[t]);
              else return 4;
              fp << ',' << fps();
              if (i) fd << ',';
              fd << '['; bool f = true;
              if (P[s]) for (auto &y : (m ? pm : pl))
                { double v = m ? M[s]->Evaluate(y) : L[s]->Evaluate(y); if (!f) fd << ','; f = false; if (std::isfinite(v)) fd << std::fixed << v; else fd << "1e300"; }
              fd << ']';
            }
          out << "{\"ev\":\"hist\",\"fp\":" << fp.str() << "],\"f\":" << fd.str() << "],\"fix\":" << id(tables()) << "}\n";
        }
      else if (c == "coeff")
        {
          unsigned n; is >> n; std::map<char, std::unique_ptr<LocalExpansionCoeff>> C; std::map<char, unsigned> P;
          auto each = [&](unsigned p, auto fn) { int i = 0; for (int a = 0; a <= (int)p; ++a) for (int b = 0; b <= a; ++b) for (int d = 0; d <= (int)p; ++d) for (int e = -d; e <= d; ++e) fn(++i, a, b, d, e); };
          out << "{\"ev\":\"coeff\",\"obs\":[";
          for (unsigned k = 0; k < n; ++k)
            {
              std::string op; char s, t; unsigned p; int i; double v; is >> op >> s >> t >> p >> i >> v;
              if (op == "new") { C[s] = std::make_unique<LocalExpansionCoeff>(p); P[s] = p; each(p, [&](int j, int a, int b, int d, int e) { C[s]->set(a, b, d, e, j); }); }
              else if (op == "set") each(P[s], [&](int j, int a, int b, int d, int e) { if (j == i) C[s]->set(a, b, d, e, v); });
              else if (op == "copy") { C[s] = std::make_unique<LocalExpansionCoeff>(*C[t]); P[s] = P[t]; }
              else if (op == "assign") { *C[s] = *C[t]; P[s] = P[t]; }
              if (k) out << ','; out << '{'; bool f = true;
              for (auto &x : C) { if (!f) out << ','; f = false; out << '"' << x.first << "\":["; each(P[x.first], [&](int j, int a, int b, int d, int e) { if (j > 1) out << ','; double w = x.second->get(a, b, d, e); out << (std::isfinite(w) && std::abs(w) < 1e9 ? (long)w : 1000000000L); }); out << ']'; }
              out << '}';
            }
          out << "]}\n";
        }
      out.flush();
    }
  out << "{\"ev\":\"end\"}\n";
}
