// sim batch PROP LO HI STRIDE DEADLINE_S | sim gen PROP SEED | sim run FILE | sim one PROP SEED | sim exec (internal: case on fd 3, verdict on fd 4)
#include "props.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <poll.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <cstring>
#include <cerrno>
#include <sys/syscall.h>

static void wr(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { long n = syscall(SYS_write, fd, s.data() + o, s.size() - o); if (n <= 0) { if (errno == EINTR) continue; break; } o += n; } }
static std::string trace_str(const std::vector<sim::Switch> &v) {
  std::string s; char b[48]; for (size_t i = 0; i < v.size() && i < 200000; i++) { snprintf(b, sizeof b, "%s%llu:%d", i ? "," : "", (unsigned long long)v[i].step, v[i].tid); s += b; }
  return s;
}
static void on_fail(const char *cls, const std::string &d) {
  sim::NoPreempt np; sim::MemOff mo;
  std::string s = std::string("VIOL\t") + cls + "\t" + d + "\n";
  const std::vector<sim::Switch> &cur = sim::sched_trace();
  s += "TRACE\t" + trace_str(g_case_trace.empty() ? cur : g_case_trace) + "\n";
  wr(4, s); _exit(10);
}
static int do_exec() {
  std::string text; char buf[65536]; ssize_t n; while ((n = read(3, buf, sizeof buf)) > 0) text.append(buf, n);
  close(3);
  Case c; if (!c.parse(text)) return 2;
  int nul = open("/dev/null", O_RDWR); dup2(nul, 1); if (!getenv("SIM_STDERR")) dup2(nul, 2);
  sim::fail_hook = on_fail;
  check_case(c);
  sim::NoPreempt np;
  char b[2048];
  snprintf(b, sizeof b, "OK\truns=%llu calls=%llu gens=%llu switches=%llu steps=%llu conflicts=%llu regions=%llu shash=%llx sthash=%llx nontriv=%llu simns=%lld accesses=%llu "
    "f_nan=%llu f_throw=%llu f_oom=%llu f_short=%llu f_eintr=%llu f_enospc=%llu f_eio=%llu f_open=%llu f_clock=%llu f_lost=%llu f_crash=%llu f_dup=%llu f_reorder=%llu f_cancel=%llu f_entropy=%llu f_fill=%llu f_stall=%llu f_restart=%llu f_resume=%llu\n",
#define L(x) (unsigned long long)ST.x
    L(runs), L(calls), L(gens), L(switches), L(steps), L(conflicts), L(regions), L(shash), L(sthash), L(nontriv), (long long)ST.simns, (unsigned long long)sim::total_steps(),
    L(f_nan), L(f_throw), L(f_oom), L(f_io_short), L(f_io_eintr), L(f_io_enospc), L(f_io_eio), L(f_io_open), L(f_clock), L(f_lost), L(f_crash), L(f_dup), L(f_reorder), L(f_cancel), L(f_entropy), L(f_fill), L(f_stall), L(f_restart), L(f_resume));
  std::string s = b; s += "TRACE\t" + trace_str(g_case_trace) + "\n";
  wr(4, s);
  _exit(0);
}
static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string self_path;
static double g_timeout = 120;
// runs one case in a fresh process image; returns "OK..." or "VIOL..." (first line) and the trace line
static std::string launch(const std::string &text, std::string *trace) {
  int in[2], out[2]; if (pipe(in) || pipe(out)) return "ERR\tpipe\n";
  pid_t p = fork();
  if (p == 0) {
    int a = fcntl(in[0], F_DUPFD, 20), b = fcntl(out[1], F_DUPFD, 21);
    for (int i = 3; i < 20; i++) close(i);
    dup2(a, 3); dup2(b, 4); close(a); close(b);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    char *const env0[] = {(char *)"LC_ALL=C", nullptr}; char *const env1[] = {(char *)"LC_ALL=C", (char *)"SIM_STDERR=1", nullptr}; char *const av[] = {(char *)"sim", (char *)"exec", nullptr};
    execve(self_path.c_str(), av, getenv("SIM_STDERR") ? env1 : env0);
    _exit(99);
  }
  close(in[0]); close(out[1]);
  wr(in[1], text); close(in[1]);
  std::string r; char buf[65536]; double t0 = now(); bool to = false;
  while (true) {
    struct pollfd pf = {out[0], POLLIN, 0}; double left = g_timeout - (now() - t0);
    if (left <= 0) { to = true; kill(p, SIGKILL); break; }
    int k = poll(&pf, 1, (int)(left * 1000) + 1); if (k <= 0) continue;
    ssize_t n = read(out[0], buf, sizeof buf); if (n <= 0) break; r.append(buf, n);
  }
  close(out[0]); int st; waitpid(p, &st, 0);
  size_t e = r.find('\n'); std::string first = e == std::string::npos ? "" : r.substr(0, e + 1);
  size_t tp = r.find("TRACE\t"); if (trace && tp != std::string::npos) { size_t q = r.find('\n', tp); *trace = r.substr(tp + 6, q - tp - 6); }
  if (to) return "VIOL\ttimeout\tno verdict within the wall-clock limit\n";
  if (first.compare(0, 3, "OK\t") == 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return first;
  if (first.compare(0, 4, "VIOL") == 0) return first;
  char b[128];
  if (WIFSIGNALED(st)) snprintf(b, sizeof b, "VIOL\tcrash\tprocess killed by signal %d\n", WTERMSIG(st));
  else if (WEXITSTATUS(st) == 97) snprintf(b, sizeof b, "ERR\tuncontrolled thread\n");
  else if (WEXITSTATUS(st) == 2 || WEXITSTATUS(st) == 99) snprintf(b, sizeof b, "ERR\texit %d\n", WEXITSTATUS(st));
  else snprintf(b, sizeof b, "VIOL\tcrash\tprocess exited with code %d\n", WEXITSTATUS(st));
  return b;
}
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "exec")) return do_exec();
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int p = personality(0xffffffff); if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) { execv("/proc/self/exe", argv); } }
  char sp[4096]; ssize_t l = readlink("/proc/self/exe", sp, sizeof sp - 1); if (l > 0) { sp[l] = 0; self_path = sp; }
  if (getenv("SIM_TIMEOUT")) g_timeout = atof(getenv("SIM_TIMEOUT"));
  if (argc == 4 && !strcmp(argv[1], "gen")) { printf("%s", gen_case(argv[2], strtoull(argv[3], 0, 10)).str().c_str()); return 0; }
  if (argc == 4 && !strcmp(argv[1], "one")) { std::string t; std::string s = launch(gen_case(argv[2], strtoull(argv[3], 0, 10)).str(), &t); printf("%s", s.c_str()); if (getenv("SIM_TRACE")) printf("TRACE\t%s\n", t.c_str()); return s[0] == 'O' ? 0 : 1; }
  if (argc == 3 && !strcmp(argv[1], "run")) {
    std::string text; char buf[65536]; ssize_t n; int fd = open(argv[2], O_RDONLY); if (fd < 0) return 2; while ((n = read(fd, buf, sizeof buf)) > 0) text.append(buf, n);
    std::string t; std::string s = launch(text, &t); printf("%s", s.c_str()); if (getenv("SIM_TRACE")) printf("TRACE\t%s\n", t.c_str()); return s[0] == 'O' ? 0 : s[0] == 'V' ? 1 : 2;
  }
  if (argc >= 7 && !strcmp(argv[1], "batch")) {
    uint64_t lo = strtoull(argv[3], 0, 10), hi = strtoull(argv[4], 0, 10), st = strtoull(argv[5], 0, 10); double dl = now() + atof(argv[6]);
    for (uint64_t s = lo; s < hi; s += st) {
      double t0 = now(); if (t0 > dl) break;
      std::string r = launch(gen_case(argv[2], s).str(), nullptr);
      printf("%llu\t%.4f\t%s", (unsigned long long)s, now() - t0, r.c_str()); fflush(stdout);
    }
    return 0;
  }
  fprintf(stderr, "usage\n"); return 2;
}
