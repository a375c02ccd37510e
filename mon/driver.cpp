// mon: runs libpluto on generated programs under instrumentation and judges
// what it did.  One forked child per case.
//   mon run  --prop P01 --seed S --from A --to B [--cpu SEC]
//   mon one  --prop P01 --file CASE
//   mon gen  --prop P01 --seed S --case K
#include "oracle.h"
#include "judge.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ftw.h>
using std::string; using std::vector;

extern "C" const char *__asan_default_options() { return "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:symbolize=1:malloc_context_size=12"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:symbolize=1"; }
extern "C" const char *__tsan_default_options() { return "exitcode=66:halt_on_error=0:report_signal_unsafe=0"; }

static string slurp(const string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static string onel(string s) { for (auto &c : s) if (c == '\n' || c == '\r' || c == '\t') c = ' '; return s; }
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }

static void child(const string &prop, const Case &c, int fd, const string &dir, int cpu) {
  struct rlimit rl; rl.rlim_cur = cpu; rl.rlim_max = cpu + 2; setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  if (chdir(dir.c_str())) _exit(98);
  if (!c.tilesizes.empty()) std::ofstream("tile.sizes") << c.tilesizes << "\n";
  if (!c.fst.empty()) { std::ofstream f(".fst"); std::istringstream in(c.fst); string w; while (in >> w) f << w << "\n"; }
  if (!c.precut.empty() && c.precut[0] != 's') { std::ofstream f(".precut"); std::istringstream in(c.precut); string w; while (in >> w) f << w << "\n"; }
  int so = open("out", O_CREAT | O_RDWR | O_TRUNC, 0600), se = open("err", O_CREAT | O_RDWR | O_TRUNC, 0600);
  dup2(so, 1); dup2(se, 2);
  Out o; FILE *f = fdopen(fd, "w"); bool harness = false; string why;
  try { judge(prop, c, o); }
  catch (TooBig &e) { o.add("toobig"); }
  catch (std::exception &e) { harness = true; why = e.what(); }
  fflush(stdout); fflush(stderr);
  for (auto &v : o.v) fprintf(f, "V %s\t%s\n", v.mon.c_str(), onel(v.msg).c_str());
  for (auto &s : o.st) fprintf(f, "S %s %llu\n", s.first.c_str(), (unsigned long long)s.second);
  for (auto &s : o.shapes) fprintf(f, "H %s\n", onel(s).c_str());
  if (harness) fprintf(f, "X %s\n", onel(why).c_str());
  fprintf(f, "D\n"); fflush(f);
  _exit(0);
}

struct CaseRes { vector<std::pair<string, string>> v; std::map<string, uint64_t> st; vector<string> sh; bool done = false, timeout = false; string harness, crash, err, out; };

static CaseRes run_case(const string &prop, const Case &c, int cpu, const string &base) {
  CaseRes r; string dir = base + "/c"; nftw(dir.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); mkdir(dir.c_str(), 0700);
  int p[2]; if (pipe(p)) { r.harness = "pipe"; return r; }
  fflush(stdout); pid_t pid = fork();
  if (pid == 0) { close(p[0]); setpgid(0, 0); child(prop, c, p[1], dir, cpu); _exit(0); }
  close(p[1]); string buf; char b[4096]; time_t t0 = time(nullptr); bool killed = false;
  for (;;) {
    struct pollfd pf = {p[0], POLLIN, 0}; int k = poll(&pf, 1, 1000);
    if (k > 0) { ssize_t n = read(p[0], b, sizeof b); if (n <= 0) break; buf.append(b, n); }
    if (time(nullptr) - t0 > 6 * cpu + 30) { kill(-pid, SIGKILL); kill(pid, SIGKILL); killed = true; break; }
  }
  close(p[0]); int st = 0; waitpid(pid, &st, 0); kill(-pid, SIGKILL);
  std::istringstream in(buf); string l;
  while (std::getline(in, l)) {
    if (l[0] == 'V') { size_t t = l.find('\t'); r.v.push_back({l.substr(2, t - 2), l.substr(t + 1)}); }
    else if (l[0] == 'S') { std::istringstream w(l.substr(2)); string k; uint64_t n; w >> k >> n; r.st[k] += n; }
    else if (l[0] == 'H') r.sh.push_back(l.substr(2));
    else if (l[0] == 'X') r.harness = l.substr(2);
    else if (l[0] == 'D') r.done = true;
  }
  r.out = slurp(dir + "/out"); r.err = slurp(dir + "/err"); if (r.err.size() > 200000) r.err.resize(200000);
  if (!r.done) {
    if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) r.timeout = true;
    else if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) r.harness = "child setup failed: " + r.err;
    else r.crash = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
  }
  nftw(dir.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS);
  return r;
}
// One line per distinct diagnostic, without addresses and line numbers.
static void diag(const string &err, vector<string> &ub, string &asan, string &asrt, string &islref) {
  std::istringstream in(err); string l; bool stack = false; string fn; 
  while (std::getline(in, l)) {
    size_t p;
    if ((p = l.find("runtime error:")) != string::npos) { string file = l.substr(0, l.find(':')); size_t sl = file.rfind('/'); if (sl != string::npos) file = file.substr(sl + 1); string m = l.substr(p + 15); 
      string mm; for (char ch : m) if (!isdigit((unsigned char)ch)) mm += ch; ub.push_back(file + ": " + mm.substr(0, 120)); }
    if ((p = l.find("SUMMARY: ThreadSanitizer:")) != string::npos) { string m = l.substr(p + 26), mm; if (m.find(" in ") != string::npos) m = m.substr(0, m.find(" /")) + m.substr(m.find(" in ")); for (char ch : m) if (!isdigit((unsigned char)ch)) mm += ch; ub.push_back("race: " + mm.substr(0, 120)); }
    if ((p = l.find("ERROR: AddressSanitizer:")) != string::npos && asan.empty()) { std::istringstream w(l.substr(p + 24)); w >> asan; stack = true; }
    if (stack && (p = l.find(" in ")) != string::npos && l.find("    #") == 0) { string f = l.substr(p + 4); f = f.substr(0, f.find(' ')); if (l.find("/repo/") != string::npos || l.find("/lib/") != string::npos && l.find(".c") != string::npos) { if (fn.empty()) fn = f; } }
    if ((p = l.find("Assertion `")) != string::npos) { asrt = l.substr(p); size_t q = l.rfind(": ", p); if (q != string::npos) { size_t q2 = l.rfind(": ", q - 1); } 
      // file:line: func: Assertion
      size_t a = l.find(".c"); string fnm; size_t c1 = l.find(": ", a == string::npos ? 0 : a); if (c1 != string::npos) { size_t c2 = l.find(": Assertion", c1); if (c2 != string::npos) fnm = l.substr(c1 + 2, c2 - c1 - 2); } asrt = fnm + " " + asrt; }
    if (l.find("isl_ctx") != string::npos && l.find("freed") != string::npos) islref = "isl_ctx freed while objects still reference it";
  }
  if (!asan.empty()) asan += " in " + fn;
}
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  string mode = argv[1], prop, file; uint64_t seed = 1; long from = 0, to = 1, kcase = 0; int cpu = 30; bool verbose = false;
  for (int i = 2; i < argc; i++) { string a = argv[i]; auto nx = [&] { return string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--from") from = atol(nx().c_str()); else if (a == "--to") to = atol(nx().c_str());
    else if (a == "--case") kcase = atol(nx().c_str()); else if (a == "--file") file = nx(); else if (a == "--cpu") cpu = atoi(nx().c_str()); else if (a == "-v") verbose = true; }
  if (mode == "gen") { fputs(case_text(gen_case(prop, seed, kcase)).c_str(), stdout); return 0; }
  char tmpl[] = "/tmp/plmon.XXXXXX"; string base = mkdtemp(tmpl); int rc = 0;
  long a = from, b = to; if (mode == "one") { a = 0; b = 1; }
  for (long k = a; k < b; k++) {
    Case c;
    try { c = mode == "one" ? case_parse(slurp(file)) : gen_case(prop, seed, k); } catch (std::exception &e) { printf("{\"case\":%ld,\"harness\":\"%s\"}\n", k, onel(e.what()).c_str()); rc = 3; continue; }
    CaseRes r = run_case(prop, c, cpu, base);
    vector<string> ub; string asan, asrt, islref; diag(r.err, ub, asan, asrt, islref);
    std::sort(ub.begin(), ub.end()); ub.erase(std::unique(ub.begin(), ub.end()), ub.end());
    // tab separated record
    printf("C\t%ld\t%s\t%s\n", k, c.name.c_str(), r.timeout ? "timeout" : !r.harness.empty() ? "harness" : !r.crash.empty() ? "crash" : "done");
    for (auto &v : r.v) printf("V\t%s\t%s\n", v.first.c_str(), v.second.c_str());
    for (auto &s : r.st) printf("S\t%s\t%llu\n", s.first.c_str(), (unsigned long long)s.second);
    for (auto &s : r.sh) printf("H\t%s\n", s.c_str());
    if (!r.crash.empty()) printf("K\t%s\t%s\n", (!asan.empty() && asan.find("ABRT") == string::npos ? "asan " + asan : !asrt.empty() ? "assert " + asrt : r.crash).c_str(), onel(r.err.substr(0, 600)).c_str());
    for (auto &u : ub) printf("U\t%s\n", u.c_str());
    if (!islref.empty()) printf("I\t%s\n", islref.c_str());
    if (!r.harness.empty()) printf("X\t%s\n", r.harness.c_str());
    if (verbose) fputs(r.out.c_str(), stderr), fputs(r.err.c_str(), stderr);
    fflush(stdout);
  }
  nftw(base.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS);
  return rc;
}
