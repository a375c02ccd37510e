// A small loop-program language, its exact execution, and its translation to
// the isl strings libpluto takes.  This is the harness's own semantics of a
// SCoP: nothing here calls libpluto.
#ifndef SCOP_H
#define SCOP_H
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>

typedef int64_t i64;
typedef std::vector<i64> Vec;

struct Rng { // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  bool pct(int p) { return in(0, 99) < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[in(0, (int)v.size() - 1)]; }
};

// ---- integer constraint systems -------------------------------------------
// row: coefficients over n variables then the constant; eq: == 0, else >= 0
struct Row { Vec c; bool eq; };
struct Sys { int n = 0; std::vector<Row> rows; };

struct TooBig : std::runtime_error { using std::runtime_error::runtime_error; };
// Calls f for every integer point; f returns false to stop.  Throws TooBig when
// unbounded or beyond the cap.
void sys_points(const Sys &s, const std::function<bool(const Vec &)> &f, size_t cap = 200000);
bool sys_holds(const Sys &s, const Vec &x);
// first m variables given
Sys sys_fix_prefix(const Sys &s, const Vec &prefix);
Sys sys_fix_suffix(const Sys &s, const Vec &suffix);

// ---- programs ---------------------------------------------------------------
struct Acc { std::string arr; std::vector<Vec> rows; }; // rows over [iters|params|1]
struct St {
  int dim = 0;
  std::vector<std::string> iters;
  std::vector<std::vector<Row>> dom; // union of conjunctions over [iters|params|1]
  std::vector<i64> beta;             // dim+1
  bool haswrite = false; Acc write; std::vector<Acc> reads;
};
struct Scop {
  std::string text;
  std::vector<std::string> params;
  std::vector<St> st;
  size_t np() const { return params.size(); }
  size_t maxdim() const { size_t m = 0; for (auto &s : st) m = std::max(m, (size_t)s.dim); return m; }
};
Scop scop_parse(const std::string &text);
std::string isl_domains(const Scop &s, const std::string &context = "");
std::string isl_schedule(const Scop &s); // domain-intersected, padded 2d+1
std::string isl_accesses(const Scop &s, bool writes);

struct Inst { int s; Vec it; };
struct Trace {
  Vec params;
  std::vector<Inst> inst;                 // in original order
  std::map<std::pair<int, Vec>, int> id;  // (stmt, iters) -> index
  // conflicting pairs (source executes first), complete
  std::vector<std::pair<int, int>> dep;
  bool depcapped = false;
};
Trace scop_trace(const Scop &s, const Vec &params, size_t instcap = 3000, size_t depcap = 400000);
// Interpret in the given order; every instance writes hash(stmt, iters, values read)
std::map<std::pair<std::string, Vec>, uint64_t> scop_run(const Scop &s, const Trace &t, const std::vector<int> &order,
                                                         std::vector<uint64_t> *vals = nullptr);

// ---- workloads ----------------------------------------------------------------
struct Kernel { const char *name; const char *text; int weight; bool stencil; };
const std::vector<Kernel> &kernels();
struct GenCfg { int maxdepth = 3, maxstmt = 4, unions = 6, strides = 0, paramAcc = 10; };
std::string gen_random(Rng &r, const GenCfg &g);
std::string gen_uniform(Rng &r, int maxdepth);
std::string gen_stencil(Rng &r);
std::string gen_diamond(Rng &r);
std::string gen_chain(Rng &r, bool many = false);
std::string gen_multi(Rng &r);
std::string gen_single(Rng &r);
std::string gen_reflected(Rng &r); // long dependences that index set splitting cuts
std::string gen_mixed(Rng &r); // scalar dimensions inside bands

// A case: program, options, cwd files, parameter values.
struct Case {
  std::string prog;
  std::map<std::string, int> opt;
  std::string tilesizes, fst, precut;
  std::map<std::string, i64> pval;
  std::string api = "transform"; // transform | schedule | str | remap
  bool withacc = true, coalesce = false;
  int ctxmin = 0; // parameter context N >= ctxmin when > 0
  std::vector<int> perm; // statement k of the text is S_perm[k] (empty: identity)
  bool droppar = false;  // dependences list only the parameters they involve
  bool revpar = false;   // dependences list the parameters in reverse order
  int given = 0;         // not 0: a schedule made from this seed is installed, the library does not search
  std::string name;
};
Scop case_scop(const Case &c);
std::string case_text(const Case &c);
Case case_parse(const std::string &t);
#endif
