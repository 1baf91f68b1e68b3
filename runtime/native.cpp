// Native side of the harness interface: replays recorded inputs against the real code
// (built from /repo with sanitizers).  usage: prog FILE...   one result line per file:
//   <file> ok | mismatch <what> | assert <msg> | crash <code> | diverged <what>
#include "../engine/nsx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
extern "C" void nsx_main();
static std::map<std::string, uint64_t> P;
static std::vector<std::pair<std::string, uint64_t>> S, O;
static size_t si, oi; static bool sample; static int rfd = -1;
static void say(const std::string& s) { fflush(stdout); if (write(rfd, s.data(), s.size())) {} }
[[noreturn]] static void fin(int c) { fflush(stdout); _exit(c); }
extern "C" {
uint64_t nsx_sym(const char* n, uint64_t lo, uint64_t hi) {
  if (si >= S.size()) { say(std::string("diverged more inputs requested than recorded: ") + n); fin(78); }
  uint64_t v = S[si].second; if (S[si].first != n) { say("diverged input " + S[si].first + " where " + n + " expected"); fin(78); }
  si++; if (v < lo || v > hi) { say("diverged range"); fin(78); } return v;
}
void nsx_assume(int c) { if (!c) { say("diverged assumption false"); fin(78); } }
void nsx_assert(int c, const char* w) { if (!c) { say(std::string("assert ") + w); fin(77); } }
void nsx_reach(const char*) {}
void nsx_observe(const char* t, uint64_t v) {
  if (getenv("NSX_TRACE")) fprintf(stderr, "observe %s = %llu\n", t, (unsigned long long)v);
  if (!sample) return;
  if (oi >= O.size() || O[oi].first != t || O[oi].second != v) { say(std::string("mismatch ") + t + " native=" + std::to_string(v) + " engine=" + (oi < O.size() ? O[oi].first + ":" + std::to_string(O[oi].second) : std::string("none"))); fin(79); }
  oi++;
}
uint64_t nsx_concretize(uint64_t v) { return v; }
uint64_t nsx_param(const char* n, uint64_t d) { auto i = P.find(n); return i == P.end() ? d : i->second; }
int nsx_engine(void) { return 0; }
static std::ostringstream cout_text; static std::streambuf* cout_buf; static std::string cout_copy;
void nsx_capture(int on) { if (on) { cout_text.str(""); cout_buf = std::cout.rdbuf(cout_text.rdbuf()); } else std::cout.rdbuf(cout_buf); }
const char* nsx_captured(void) { cout_copy = cout_text.str(); return cout_copy.c_str(); }
static std::string fpath;
void nsx_set_file(const char* t) {
  const char* d = getenv("TMPDIR"); std::string p = std::string(d ? d : "/tmp") + "/nsxXXXXXX.cnf"; std::vector<char> b(p.begin(), p.end()); b.push_back(0);
  int f = mkstemps(b.data(), 4); if (f < 0) fin(80); if (write(f, t, strlen(t))) {} close(f); fpath = b.data(); setenv("NSX_FILE", b.data(), 1); atexit([] { unlink(fpath.c_str()); });
}
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static long live; static bool hooked;
uint64_t nsx_leaks(void) {   // blocks allocated and not released since the first call
  if (!hooked) { hooked = true; live = 0; __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t) { live++; }, [](const volatile void* p) { if (p) live--; }); }
  return (uint64_t)live;
}
}
int main(int argc, char** argv) {
  int bad = 0;
  for (int i = 1; i < argc; i++) {
    int fd[2]; if (pipe(fd)) return 3; fflush(stdout);
    pid_t p = fork();
    if (!p) {
      rfd = fd[1]; close(fd[0]); struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      FILE* f = fopen(argv[i], "r"); if (!f) fin(3); char k[64], n[256]; unsigned long long v;
      while (fscanf(f, "%63s %255s %llu", k, n, &v) == 3) { if (!strcmp(k, "param")) P[n] = v; else if (!strcmp(k, "sym")) S.push_back({n, v}); else { O.push_back({n, v}); } }
      fclose(f); sample = strstr(argv[i], "sample-") != nullptr;
      if (!getenv("NSX_VERBOSE")) { if (!freopen("/dev/null", "w", stdout)) {} }
      nsx_main();
      if (sample && oi != O.size()) { say("mismatch observation count"); fin(79); }
      if (!fpath.empty()) unlink(fpath.c_str());
      say("ok"); fflush(stdout); _exit(0);
    }
    close(fd[1]); std::string r; char b[512]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) r.append(b, k); close(fd[0]);
    int st; waitpid(p, &st, 0); int code = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
    if (r.empty()) r = "crash " + std::to_string(code); else if (r == "ok" && code) r = "crash " + std::to_string(code);
    printf("%s %s\n", argv[i], r.c_str()); fflush(stdout); if (r != "ok") bad = 1;
  }
  return bad;
}
