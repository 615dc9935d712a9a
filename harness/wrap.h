// Link-time wrapping of calls into the real code (only with -DBEMX_WRAP):
//  - operations on expansion objects: logs begin/end with the thread, and
//    delays them pseudo-randomly so that other schedules are explored;
//  - the stages of a driver run: logs them with the state they see.
// A symbol that the code no longer has simply stays silent (weak references).
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
#include <cxxabi.h>

struct Watch
{
  bool on = false;
  unsigned seed = 1, delay_us = 0;
  std::mutex m;
  struct E { bool begin; int t; const void *o[2]; char k[2]; int n; };
  std::vector<E> log;
  int next = 0;
  int tid() { thread_local int t = -1; if (t < 0) { static std::atomic<int> c{0}; t = c++; } return t; }
  void delay()
  {
    if (!delay_us) return;
    thread_local std::mt19937 g(seed * 7919 + tid());
    const unsigned r = g() % 100;
    if (r < 3) std::this_thread::sleep_for(std::chrono::microseconds(g() % delay_us));
    else if (r < 12) std::this_thread::yield();
  }
  void ev(bool b, const void *a, char ka, const void *c = nullptr, char kc = 'r')
  {
    E e{b, tid(), {a, c}, {ka, kc}, c ? 2 : 1};
    std::lock_guard<std::mutex> g(m);
    log.push_back(e);
  }
  struct Span
  {
    Watch *w; const void *a, *c; char ka, kc;
    Span(Watch *w, const void *a, char ka, const void *c = nullptr, char kc = 'r') : w(w->on ? w : nullptr), a(a), c(c), ka(ka), kc(kc)
    { if (this->w) { this->w->delay(); this->w->ev(true, a, ka, c, kc); this->w->delay(); } }
    ~Span() { if (w) { w->delay(); w->ev(false, a, ka, c, kc); } }
  };
  // Objects used by one thread only cannot conflict; consecutive operations of
  // one thread and kind on an object with nobody else in between count as one.
  void dump(std::ostream &)
  {
    struct I { size_t b, e; int t; char k; };
    std::map<const void *, std::vector<I>> ops;
    std::map<std::pair<int, const void *>, std::vector<size_t>> open;
    std::set<int> th;
    for (size_t x = 0; x < log.size(); ++x)
      {
        auto &e = log[x]; th.insert(e.t);
        for (int i = 0; i < e.n; ++i)
          {
            if (i == 1 && e.o[1] == e.o[0]) continue;
            auto &st = open[{e.t, e.o[i]}];
            if (e.begin) { st.push_back(ops[e.o[i]].size()); ops[e.o[i]].push_back(I{x, log.size(), e.t, e.k[i]}); }
            else if (st.size()) { ops[e.o[i]][st.back()].e = x; st.pop_back(); }
          }
      }
    int id = 0; size_t kept = 0;
    struct R { size_t x; bool b; int o, t; char k; };
    std::vector<R> rec;
    for (auto &o : ops)
      {
        std::vector<I> m;
        bool shared = false;
        for (auto &v : o.second)
          {
            if (v.t != o.second[0].t) shared = true;
            // a phase of reads: one interval per thread
            bool in = false;
            for (size_t y = m.size(); !in && y-- > 0 && m[y].k == v.k;)
              {
                if (m[y].t == v.t) { m[y].e = std::max(m[y].e, v.e); in = true; }
                if (v.k == 'w') break;
              }
            if (!in) m.push_back(v);
          }
        if (!shared) continue;
        ++id; kept += m.size();
        for (auto &v : m) { rec.push_back(R{v.b, true, id, v.t, v.k}); rec.push_back(R{v.e, false, id, v.t, v.k}); }
      }
    std::sort(rec.begin(), rec.end(), [](const R &a, const R &b) { return a.x < b.x || (a.x == b.x && a.o < b.o); });
    J j("watch"); j.key("log"); j.o << '['; bool f = true;
    for (auto &r : rec) { if (!f) j.o << ','; f = false; j.o << '[' << (r.b ? 1 : 0) << ',' << r.t << ',' << r.o << ',' << (r.k == 'w' ? 1 : 0) << ']'; }
    j.o << ']';
    j.num("ops", log.size()); j.num("kept", kept); j.num("threads", th.size()); j.num("shared", id);
    emit(j); log.clear();
  }
};
static Watch watch;

#define REAL(name) __real_##name
#define WK __attribute__((weak))
extern "C" {
using V = void *; using C = const void *;
// LocalExpansion / MultipoleExpansion
WK void REAL(_ZN14LocalExpansion3AddERK18MultipoleExpansion)(V, C);
void __wrap__ZN14LocalExpansion3AddERK18MultipoleExpansion(V s, C o) { Watch::Span k(&watch, s, 'w', o); REAL(_ZN14LocalExpansion3AddERK18MultipoleExpansion)(s, o); }
WK void REAL(_ZN14LocalExpansion3AddERKS_)(V, C);
void __wrap__ZN14LocalExpansion3AddERKS_(V s, C o) { Watch::Span k(&watch, s, 'w', o); REAL(_ZN14LocalExpansion3AddERKS_)(s, o); }
WK double REAL(_ZN14LocalExpansion8EvaluateERKN6dealii5PointILi3EdEE)(V, C);
double __wrap__ZN14LocalExpansion8EvaluateERKN6dealii5PointILi3EdEE(V s, C o) { Watch::Span k(&watch, s, 'r'); return REAL(_ZN14LocalExpansion8EvaluateERKN6dealii5PointILi3EdEE)(s, o); }
WK V REAL(_ZN14LocalExpansionaSERKS_)(V, C);
V __wrap__ZN14LocalExpansionaSERKS_(V s, C o) { Watch::Span k(&watch, s, 'w', o); return REAL(_ZN14LocalExpansionaSERKS_)(s, o); }
WK void REAL(_ZN18MultipoleExpansion10AddNormDerEdRKN6dealii5PointILi3EdEERKNS0_6TensorILi1ELi3EdEE)(V, double, C, C);
void __wrap__ZN18MultipoleExpansion10AddNormDerEdRKN6dealii5PointILi3EdEERKNS0_6TensorILi1ELi3EdEE(V s, double d, C p, C n) { Watch::Span k(&watch, s, 'w'); REAL(_ZN18MultipoleExpansion10AddNormDerEdRKN6dealii5PointILi3EdEERKNS0_6TensorILi1ELi3EdEE)(s, d, p, n); }
WK void REAL(_ZN18MultipoleExpansion3AddERKS_)(V, C);
void __wrap__ZN18MultipoleExpansion3AddERKS_(V s, C o) { Watch::Span k(&watch, s, 'w', o); REAL(_ZN18MultipoleExpansion3AddERKS_)(s, o); }
WK void REAL(_ZN18MultipoleExpansion3AddERKS_d)(V, C, double);
void __wrap__ZN18MultipoleExpansion3AddERKS_d(V s, C o, double d) { Watch::Span k(&watch, s, 'w', o); REAL(_ZN18MultipoleExpansion3AddERKS_d)(s, o, d); }
WK void REAL(_ZN18MultipoleExpansion3AddEdRKN6dealii5PointILi3EdEE)(V, double, C);
void __wrap__ZN18MultipoleExpansion3AddEdRKN6dealii5PointILi3EdEE(V s, double d, C p) { Watch::Span k(&watch, s, 'w'); REAL(_ZN18MultipoleExpansion3AddEdRKN6dealii5PointILi3EdEE)(s, d, p); }
WK double REAL(_ZN18MultipoleExpansion8EvaluateERKN6dealii5PointILi3EdEE)(V, C);
double __wrap__ZN18MultipoleExpansion8EvaluateERKN6dealii5PointILi3EdEE(V s, C o) { Watch::Span k(&watch, s, 'r'); return REAL(_ZN18MultipoleExpansion8EvaluateERKN6dealii5PointILi3EdEE)(s, o); }
WK V REAL(_ZN18MultipoleExpansionaSERKS_)(V, C);
V __wrap__ZN18MultipoleExpansionaSERKS_(V s, C o) { Watch::Span k(&watch, s, 'w', o); return REAL(_ZN18MultipoleExpansionaSERKS_)(s, o); }
}

// stages of a run
static bool stage_on = false;
static void stage(const char *name, BoundaryConditions<dim> *bc, bool sol)
{
  if (!stage_on) return;
  { J j("stage"); j.str("name", name); j.num("cells", bc->comp_dom.tria.n_active_cells()); emit(j); }
  Session s;
  s.cd.reset(&bc->comp_dom); s.bp.reset(&bc->bem); s.bc.reset(bc);
  s.dump_mesh();
  if (sol) s.dump_sol();
  if (std::string(name) == "output")
    { s.dump_dofs(); s.dump_vec("grad", s.bp->vector_gradients_solution); s.dump_vec("sgrad", s.bp->vector_surface_gradients_solution); s.dump_vec("normals", s.bp->vector_normals_solution); s.dump_norms(); }
  s.cd.release(); s.bp.release(); s.bc.release();
}
static void plain(const char *name) { if (stage_on) { J j("stage"); j.str("name", name); emit(j); } }
#if BEMX_DIM == 2
#define D_ "2"
#define SYM(a, b) a##2##b
#else
#define SYM(a, b) a##3##b
#endif
extern "C" {
WK void SYM(__real__ZN18BoundaryConditionsILi, EE13solve_problemEv)(BoundaryConditions<dim> *);
void SYM(__wrap__ZN18BoundaryConditionsILi, EE13solve_problemEv)(BoundaryConditions<dim> *s) { SYM(__real__ZN18BoundaryConditionsILi, EE13solve_problemEv)(s); stage("solve", s, true); }
WK void SYM(__real__ZN18BoundaryConditionsILi, EE14compute_errorsEv)(BoundaryConditions<dim> *);
void SYM(__wrap__ZN18BoundaryConditionsILi, EE14compute_errorsEv)(BoundaryConditions<dim> *s) { stage("errors", s, true); SYM(__real__ZN18BoundaryConditionsILi, EE14compute_errorsEv)(s); }
WK void SYM(__real__ZN18BoundaryConditionsILi, EE14output_resultsENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE)(BoundaryConditions<dim> *, std::string *);
void SYM(__wrap__ZN18BoundaryConditionsILi, EE14output_resultsENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE)(BoundaryConditions<dim> *s, std::string *f) { stage("output", s, true); SYM(__real__ZN18BoundaryConditionsILi, EE14output_resultsENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE)(s, f); plain("written"); }
WK void SYM(__real__ZN19ComputationalDomainILi, EE11read_domainEv)(ComputationalDomain<dim> *);
void SYM(__wrap__ZN19ComputationalDomainILi, EE11read_domainEv)(ComputationalDomain<dim> *s) { SYM(__real__ZN19ComputationalDomainILi, EE11read_domainEv)(s); if (stage_on) { J j("stage"); j.str("name", "read"); j.num("cells", s->tria.n_active_cells()); emit(j); } }
}
