// Runner: serial PROP SEED FROM TO TIER OUT STDERRFILE
// Runs every case in a forked child, so that a crash, sanitizer report, exit()
// or hang of the code under test is an observation and not the end of the run.
// OUT gets tab separated records:
//   K idx kindname            start of a case
//   V key detail              violation seen by an oracle
//   C name n                  counter
//   S sighex nontrivial desc  what ran
//   X what detail             abnormal end (exit/signal/timeout)
//   L pcs n bytes             storage the case left allocated (property C21)
//   E line                    line of stderr with a sanitizer report or of an abnormal end
#include "vf.h"
#include "track.h"
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <time.h>
#include <mpi.h>
#include "MSTK.h"
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

std::vector<CaseKind>& case_kinds() { static std::vector<CaseKind> v; return v; }

static std::string clean(std::string s) {
  for (char& ch : s) if (ch == '\n' || ch == '\t' || ch == '\r') ch = ' ';
  return s;
}

static volatile sig_atomic_t g_fd = -1;
static std::string* g_curdesc = nullptr;

static void emit(int fd, const std::string& s) {
  size_t o = 0;
  while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; }
}

static Ctx* g_ctx = nullptr;
static int g_outfd = -1;
static void flush_ctx() {
  if (!g_ctx) return;
  Ctx& c = *g_ctx;
  g_ctx = nullptr;
  std::string o;
  if (!c.muted) for (auto& v : c.viol) o += "V\t" + clean(v.key) + "\t" + clean(v.detail) + "\n";
  for (auto& kv : c.cnt) o += "C\t" + kv.first + "\t" + std::to_string(kv.second) + "\n";
  for (int i = 1; i < 3; i++)
    if (g_reports[i]) o += std::string("C\tlib_") + (i == 1 ? "warnings" : "errors") + "\t" + std::to_string(g_reports[i]) + "\n";
  char b[64]; snprintf(b, sizeof b, "S\t%016llx\t%d\t", (unsigned long long)c.sig, (int)c.nontrivial);
  o += b + clean(c.desc) + "\n";
  if (g_track && !c.completed) g_track = false;
  if (g_track) o += left_allocated();
  emit(g_outfd, o);
}

int main(int argc, char** argv) {
  if (argc < 8) {
    for (auto& k : case_kinds()) printf("%s %s %d\n", k.prop, k.name, k.weight);
    return 2;
  }
  std::string prop = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  long from = atol(argv[3]), to = atol(argv[4]);
  int tier = atoi(argv[5]);
  const char* outname = argv[6];
  const char* errname = argv[7];
  int tmo = argc > 8 ? atoi(argv[8]) : 60;
  std::vector<CaseKind> kinds;
  bool mem = prop == "C21";        // every kind of case, judged for memory only
  bool mark = prop == "C28";       // every kind of case, in the marker build
  for (auto& k : case_kinds()) if (prop == k.prop || mark || (mem && k.prop != std::string("C28"))) kinds.push_back(k);
  std::sort(kinds.begin(), kinds.end(), [](const CaseKind& a, const CaseKind& b) { int q = strcmp(a.name, b.name); return q ? q < 0 : strcmp(a.prop, b.prop) < 0; });
  kinds.erase(std::unique(kinds.begin(), kinds.end(), [](const CaseKind& a, const CaseKind& b) { return !strcmp(a.name, b.name); }), kinds.end());
  int tot = 0;
  for (auto& k : kinds) tot += k.weight;
  if (!tot) { fprintf(stderr, "no cases for %s\n", prop.c_str()); return 3; }
  int out = open(outname, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (out < 0) { perror(outname); return 3; }
  char wd[] = "/tmp/vfXXXXXX";
  if (!mkdtemp(wd) || chdir(wd)) { perror("mkdtemp"); return 3; }
  if (prop != "C27") MSTK_Init();          // MPI starts threads of its own: ThreadSanitizer does not judge a process forked from one that has several
  for (long idx = from; idx < to; idx++) {
    int w = (int)(idx % tot), ki = 0;          // kinds in a fixed interleaving
    while (w >= kinds[ki].weight) w -= kinds[ki++].weight;
    CaseKind K = kinds[ki];
    emit(out, "K\t" + std::to_string(idx) + "\t" + K.name + "\n");
    fflush(stdout); fflush(stderr);
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 3; }
    if (!pid) {
      int ef = open(errname, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      int nul = open("/dev/null", O_RDWR);
      dup2(ef, 2); dup2(nul, 1); dup2(nul, 0);
      signal(SIGALRM, SIG_DFL);
      alarm(tmo);
      g_outfd = out;
      static Ctx c;
      c.rng = Rng(seed * 1000003ull + (uint64_t)idx * 7919ull + std::hash<std::string>()(prop + K.name) % 1000003ull);
      c.prop = prop; c.tier = tier; c.index = idx;
      c.mixs(K.name);
      g_ctx = &c;
      c.muted = mem && strcmp(K.prop, "C21");
      g_blk = new std::unordered_map<void*, Blk>;
      g_track = mem && !getenv("VF_NOTRACK");
      atexit(flush_ctx);
      if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(flush_ctx);
      if (mark) mk_begin(&c);
      K.fn(c);
      if (mark) mk_end();
      c.completed = true;
      flush_ctx();
      _exit(77);        // the only good end: exit(0) from anywhere else is not
    }
    int st = 0;
    waitpid(pid, &st, 0);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    emit(out, "T\t" + std::to_string((long)((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000)) + "\n");
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 77);
    if (bad) {
      char b[100];
      if (WIFSIGNALED(st)) snprintf(b, sizeof b, "X\t%s\t%d\n", WTERMSIG(st) == SIGALRM ? "timeout" : "signal", WTERMSIG(st));
      else snprintf(b, sizeof b, "X\texit\t%d\n", WEXITSTATUS(st));
      emit(out, b);
    }
    // stderr of the child
    FILE* f = fopen(errname, "r");
    if (f) {
      std::vector<std::string> L; char buf[4096]; bool san = false;
      while (fgets(buf, sizeof buf, f) && L.size() < 4000) {
        L.push_back(clean(buf));
        if (strstr(buf, "runtime error:") || strstr(buf, "ERROR: AddressSanitizer") || strstr(buf, "WARNING: ThreadSanitizer") || strstr(buf, "VERIF-FATAL")) san = true;
      }
      fclose(f);
      if (bad || san) {
        size_t s = 0;
        if (L.size() > 400) s = 0;
        size_t n = 0;
        for (size_t i = s; i < L.size(); i++) {
          bool keep = bad && i + 60 > L.size();
          if (L[i].find("runtime error:") != std::string::npos || L[i].find("AddressSanitizer") != std::string::npos || L[i].find("ThreadSanitizer") != std::string::npos ||
              L[i].find("    #") != std::string::npos || L[i].find("VERIF-FATAL") != std::string::npos) keep = true;
          if (keep && n++ < 200) emit(out, "E\t" + L[i] + "\n");
        }
      }
    }
  }
  emit(out, "Z\t" + std::to_string(to - from) + "\n");
  unlink(errname);
  if (chdir("/")) {}
  std::string rm = std::string("rm -rf ") + wd;
  if (system(rm.c_str())) {}
  return 0;
}
