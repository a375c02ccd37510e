// Observation of one libpluto run and the monitors that judge it.
#ifndef ORACLE_H
#define ORACLE_H
#include "scop.h"
#include <set>
#include <isl/ctx.h>
#include <isl/union_map.h>
#include <isl/union_set.h>

// What a run claimed at one observation point, copied out of the PlutoProg.
struct LoopSnap { unsigned depth; std::vector<int> stmts; bool parallel = false, vec = false, inner = false; };
struct BandSnap { unsigned depth, width; std::vector<int> stmts; };
struct DepSnap {
  int src, dest, type; bool satisfied; int level; std::vector<int> satvec; std::string dirvec;
  Sys poly, xpoly; // over [src dims | dest dims | params]; xpoly: with the tiles of both instances
  int srcdim, destdim;
};
struct StSnap { int dim, dim_orig; std::vector<Sys> dom; std::vector<Vec> trans; std::vector<int> hyp; std::vector<int> isorig; int nr, nw; };
struct Snap {
  bool valid = false; int nh = 0, npar = 0; bool diamond = false; std::vector<int> htype;
  std::vector<StSnap> st; std::vector<DepSnap> dep;
  std::vector<LoopSnap> loops, parloops, domloops, ujloops; bool haslow = false; std::vector<BandSnap> bands, ibands, pbands;
};
struct Remap { std::vector<std::vector<Vec>> mat; std::vector<std::vector<int>> div; };

struct Viol { std::string mon, msg; };
struct Out {
  std::vector<Viol> v;
  std::map<std::string, uint64_t> st;
  std::set<std::string> shapes; // distinct observed behaviours (hash text)
  void add(const std::string &k, uint64_t n = 1) { st[k] += n; }
  void fail(const std::string &m, const std::string &msg) { if (v.size() < 20) v.push_back({m, msg}); }
};

struct RunRes {
  bool ok = false;             // a schedule was returned
  bool isnull = false;
  isl_ctx *ctx = nullptr;
  isl_union_map *sched = nullptr;
  std::string schedstr;
  std::string domstr, depstr, rstr, wstr;
  Snap a, f;                   // after auto-transform, at the end
  std::string out;             // captured stdout
  Remap remap; bool hasremap = false; std::string ploops;
};
struct RunIn { const Case &c; const Scop &s; bool snap = true; bool memdeps = true; struct plutoContext **keep = nullptr; /* the context is made on first use and kept, with its options */ };

extern bool g_lowlevel; // also record unroll-jam candidates and vectorizable loops
// times[i]: for trace instance i the logical date; empty when it has none
typedef std::vector<Vec> Times;

// Run libpluto on the case.  mutates cwd files through the caller.
void run_pluto(const RunIn &in, RunRes &r);
void run_free(RunRes &r);
isl_union_map *dep_relation(isl_ctx *ctx, const Scop &s, const Case &c);

bool times_from_map(isl_union_map *m, const Scop &s, const Trace &t, Times &o, Out &out, const char *mon, bool requireAll = true);
bool times_from_snap(const Snap &n, const Scop &s, const Trace &t, Times &o, Out &out, const char *mon, std::vector<Vec> *ext = nullptr);

void mon_legal(const Scop &s, const Trace &t, const Times &tm, Out &o, const char *mon);
void mon_exec(const Scop &s, const Trace &t, const Times &tm, Out &o, const char *mon);
void mon_inject(const Trace &t, const Times &tm, Out &o, const char *mon);
void mon_same(const Trace &t, const Times &a, const Times &b, Out &o, const char *mon);
void mon_parallel(const Snap &n, const Trace &t, const Times &tm, Out &o, const char *mon);
void mon_unrolljam(const Snap &n, const Scop &s, const Trace &t, const Times &tm, Out &o, const char *mon);
void mon_vector(const Snap &n, const Scop &s, const Trace &t, const Times &tm, Out &o, const char *mon);
void mon_wave(const Case &c, const Snap &a, const Snap &f, Out &o, const char *mon);
void mon_bands(const Snap &n, const Trace &t, const Times &tm, Out &o, const char *mon);
std::string ctxcond(const Case &c, const Scop &s);
void mon_tracked(const Snap &a, const Snap &f, const Trace &t, Out &o, const char *mon);
void mon_depinfo(const Snap &n, const Trace &t, Out &o, const char *mon, bool exact);
void mon_tiles(const Case &c, const Snap &a, const Snap &f, const Scop &s, const Trace &t, Out &o, const char *mon);
void mon_param_legal(const Scop &s, const Case &c, RunRes &r, Out &o, const char *mon);
void mon_domain(const Scop &s, const Case &c, RunRes &r, Out &o, const char *mon);
void mon_loops(const Snap &n, const Trace &t, const Times &tm, Out &o, const char *mon);
void mon_parallel_exact(const Snap &n, Out &o, const char *mon);
void mon_band_maximal(const Snap &n, Out &o, const char *mon);
void mon_remap(const Case &c, const Scop &s, const Trace &t, RunRes &r, Out &o, const char *mon);
void judge_strings(const Case &c, const Scop &s, const Trace &t, RunRes &r, Out &o);
void judge_deterministic(const Case &c, const Scop &s, const Trace &t, Out &o);
void judge_threads(const Case &c, Out &o);
void judge_fusion(const Case &c, const Scop &s, const Trace &t, RunRes &r, Out &o);
void judge_optimal(const Case &c, const Scop &s, const Trace &t, RunRes &r, Out &o);
// statement-level dependence edges
std::set<std::pair<int, int>> dep_edges(const Scop &s, const Case &c);
void judge_iss(const Case &c, const Scop &s, const Trace &t, Out &o);
void watch_given(bool on);
void mon_given(const Case &c, const Scop &s, const Trace &t, const RunRes &r, Out &o, const char *mon);
void judge_memory(const Case &c, const Scop &s, Out &o);
bool domains_nonempty(const Case &c, const Scop &s);
bool sunk_possible(const Snap &a);
std::string snap_text(const Snap &n);
std::string inst_str(const Trace &t, int i);
std::string vstr(const Vec &v);
#endif
