// Runner: mpiexec -n W par PROP SEED FROM TO TIER OUT TIMEOUT
// Same records as the serial runner.  A case that ends abnormally ends the job: the caller goes on with the next case.
#include "../track.h"
#include "pmesh.h"
#include <fcntl.h>
#include <signal.h>
#include <time.h>
std::vector<CaseKind>& case_kinds() { static std::vector<CaseKind> v; return v; }
static std::string clean(std::string s) { for (char& ch : s) if (ch == '\n' || ch == '\t' || ch == '\r') ch = ' '; return s; }
static void emit(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } }

// ---------------------------------------------------------------- interposed MPI
static Rng g_drng(1); static int g_dmode = 0, g_dkind = 0; static bool g_slow = false; static long g_events = 0, g_delays = 0;
static std::map<std::string, long>* g_calls = nullptr;
static bool g_sync = false;
static void pause_us(int us) { struct timespec t = {0, us * 1000L}; nanosleep(&t, nullptr); }
static void mpi_event(const char* what, int kind) {
  g_events++; if (g_calls) (*g_calls)[what]++;
  if (!g_dmode) return;
  bool hit = g_dmode == 1 ? g_drng.chance(0.15) : g_dmode == 2 ? g_slow && g_drng.chance(0.4) : kind == g_dkind && g_drng.chance(0.5);
  if (hit) { g_delays++; pause_us(g_drng.chance(0.1) ? g_drng.range(500, 2000) : g_drng.range(1, 200)); }
}
// Calls by the library (the program is linked at a fixed low address) as against those of the partitioners' libraries.
#define BY_LIB ((uintptr_t)__builtin_return_address(0) < 0x40000000)
extern "C" void* __asan_region_is_poisoned(void*, size_t);
// what is under way: buffers of pending sends must stay as they were, buffers of pending receives must stay allocated
struct Pend { const void* b; size_t n; uint64_t h; bool send; };
static std::map<MPI_Request, Pend>* g_pend = nullptr;
static std::vector<std::string>* g_traffic = nullptr;          // violations seen
static void traffic(const char* what, size_t n) { if (g_traffic && g_traffic->size() < 20) g_traffic->push_back(std::string(what) + "\ta buffer of " + std::to_string(n) + " bytes"); }
static uint64_t hash_of(const void* b, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)b)[i]) * 1099511628211ull; return h; }
static void started(MPI_Request r, const void* b, int n, MPI_Datatype t, bool send) {
  if (!g_pend || r == MPI_REQUEST_NULL) return;
  int sz; PMPI_Type_size(t, &sz); size_t len = (size_t)sz * n;
  if (g_pend->count(r)) return;      // handle used again: cannot be told apart
  (*g_pend)[r] = {b, len, send ? hash_of(b, len) : 0, send};
}
static void finishing(MPI_Request r) {
  if (!g_pend) return;
  auto it = g_pend->find(r); if (it == g_pend->end()) return;
  const Pend& q = it->second;
  if (q.n && __asan_region_is_poisoned((void*)q.b, q.n)) traffic(q.send ? "traffic.send-buffer-freed" : "traffic.receive-buffer-freed", q.n);
  else if (q.send && hash_of(q.b, q.n) != q.h) traffic("traffic.send-buffer-changed", q.n);
  g_pend->erase(it);
}
// every message sent and received by the library and its collective calls, in order
struct Msg { int self, peer, tag, type; long bytes; };
static std::vector<Msg>*g_sent = nullptr, *g_recd = nullptr; static std::vector<double>* g_coll = nullptr; static std::map<MPI_Request, size_t> g_post;
static int type_no(MPI_Datatype t) { return t == MPI_INT ? 1 : t == MPI_DOUBLE ? 2 : t == MPI_CHAR ? 3 : t == MPI_UNSIGNED ? 4 : t == MPI_LONG ? 5 : t == MPI_BYTE ? 6 : 9; }
static int self_of(MPI_Comm c) { int r; PMPI_Comm_rank(c, &r); return r; }
static long bytes_of(int n, MPI_Datatype t) { int z; PMPI_Type_size(t, &z); return (long)n * z; }
static void log_send(int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { if (g_sent && d != MPI_PROC_NULL) g_sent->push_back({self_of(c), d, tag, type_no(t), bytes_of(n, t)}); }
static size_t log_post(MPI_Datatype t, int s, int tag, MPI_Comm c) { if (!g_recd || s == MPI_PROC_NULL) return (size_t)-1; g_recd->push_back({self_of(c), s, tag, type_no(t), -1}); return g_recd->size() - 1; }
static void log_done(size_t i, MPI_Status* s) { if (!g_recd || i >= g_recd->size()) return; int n; PMPI_Get_count(s, MPI_BYTE, &n); (*g_recd)[i].bytes = n; }
static void log_coll(int kind, int n, MPI_Datatype t, int root, MPI_Comm c) { if (g_coll) for (double q : {(double)kind, (double)(n < 0 ? -1 : bytes_of(n, t)), (double)type_no(t), (double)root}) g_coll->push_back(q); }
extern "C" {
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { bool L = BY_LIB; mpi_event("mpi_send", 0); if (L) log_send(n, t, d, tag, c); return (L && g_sync ? PMPI_Ssend : PMPI_Send)(b, n, t, d, tag, c); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { bool L = BY_LIB; mpi_event("mpi_isend", 0); if (L) log_send(n, t, d, tag, c); int e = (L && g_sync ? PMPI_Issend : PMPI_Isend)(b, n, t, d, tag, c, r); if (L) started(*r, b, n, t, true); return e; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { bool L = BY_LIB; mpi_event("mpi_recv", 1); size_t i = L ? log_post(t, s, tag, c) : -1; MPI_Status q; int e = PMPI_Recv(b, n, t, s, tag, c, &q); if (L) log_done(i, &q); if (st != MPI_STATUS_IGNORE) *st = q; return e; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) { bool L = BY_LIB; mpi_event("mpi_irecv", 1); size_t i = L ? log_post(t, s, tag, c) : -1; int e = PMPI_Irecv(b, n, t, s, tag, c, r); if (L && g_recd) g_post[*r] = i; if (L) started(*r, b, n, t, false); return e; }
int MPI_Wait(MPI_Request* r, MPI_Status* s) { mpi_event("mpi_wait", 2); finishing(*r); auto it = g_post.find(*r); size_t i = it == g_post.end() ? (size_t)-1 : it->second; if (it != g_post.end()) g_post.erase(it); MPI_Status q; int e = PMPI_Wait(r, &q); log_done(i, &q); if (s != MPI_STATUS_IGNORE) *s = q; return e; }
int MPI_Waitall(int n, MPI_Request r[], MPI_Status s[]) { mpi_event("mpi_waitall", 2); std::vector<size_t> at(n, (size_t)-1); std::vector<MPI_Status> q(n + 1);
  for (int i = 0; i < n; i++) { finishing(r[i]); auto it = g_post.find(r[i]); if (it != g_post.end()) { at[i] = it->second; g_post.erase(it); } }
  int e = PMPI_Waitall(n, r, q.data()); for (int i = 0; i < n; i++) { log_done(at[i], &q[i]); if (s != MPI_STATUSES_IGNORE) s[i] = q[i]; } return e; }
int MPI_Allgather(const void* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, MPI_Comm c) { bool L = BY_LIB; mpi_event("mpi_allgather", 3); if (L) log_coll(1, n, t, -1, c); return PMPI_Allgather(a, n, t, b, m, u, c); }
int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { bool L = BY_LIB; mpi_event("mpi_allreduce", 3); if (L) log_coll(2, n, t, -1, c); return PMPI_Allreduce(a, b, n, t, o, c); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int r, MPI_Comm c) { bool L = BY_LIB; mpi_event("mpi_bcast", 3); if (L) log_coll(3, n, t, r, c); return PMPI_Bcast(b, n, t, r, c); }
int MPI_Gather(const void* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, int r, MPI_Comm c) { bool L = BY_LIB; mpi_event("mpi_gather", 3); if (L) log_coll(4, n, t, r, c); return PMPI_Gather(a, n, t, b, m, u, r, c); }
int MPI_Scatter(const void* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, int r, MPI_Comm c) { bool L = BY_LIB; mpi_event("mpi_scatter", 3); if (L) log_coll(5, n, t, r, c); return PMPI_Scatter(a, n, t, b, m, u, r, c); }
int MPI_Barrier(MPI_Comm c) { bool L = BY_LIB; mpi_event("mpi_barrier", 3); if (L) log_coll(6, 0, MPI_INT, -1, c); return PMPI_Barrier(c); }
}
void par_delays(uint64_t seed, int mode) {
  int r; PMPI_Comm_rank(MPI_COMM_WORLD, &r); int w; PMPI_Comm_size(MPI_COMM_WORLD, &w);
  Rng q(seed * 31 + 7); g_dmode = mode == 4 ? 1 : mode; g_sync = mode == 4; g_slow = q.below(w) == r; g_dkind = q.below(4); g_drng = Rng(seed * 1009 + r);
}
long par_events() { return g_events; }
int par_world() { int w; PMPI_Comm_size(MPI_COMM_WORLD, &w); return w; }
Par par_comm(Ctx& c, int np) {
  int r, w; PMPI_Comm_rank(MPI_COMM_WORLD, &r); PMPI_Comm_size(MPI_COMM_WORLD, &w);
  np = std::min(np, w); std::vector<int> p(w); std::iota(p.begin(), p.end(), 0); c.rng.shuffle(p);
  int pos = (int)(std::find(p.begin(), p.end(), r) - p.begin());
  Par q; q.np = np; MPI_Comm t;
  PMPI_Comm_split(MPI_COMM_WORLD, pos < np ? 0 : MPI_UNDEFINED, pos, &t);
  if (t != MPI_COMM_NULL) { q.comm = t; PMPI_Comm_dup(t, &q.own); PMPI_Comm_rank(t, &q.rank); }
  return q;
}
void par_free(Par& p) { if (p.comm != MPI_COMM_NULL) { PMPI_Comm_free(&p.comm); PMPI_Comm_free(&p.own); } }
int par_stray(const Par& p) { PMPI_Barrier(p.own); int f = 0; MPI_Status s; PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, p.comm, &f, &s); PMPI_Barrier(p.own); return f ? 1 + s.MPI_TAG : 0; }

// a partitioning of our choice in place of the partitioner's
const IV* g_parts = nullptr; bool g_used = false;
extern "C" {
int __real_MESH_PartitionWithMetis(Mesh_ptr, int, int**);
int __wrap_MESH_PartitionWithMetis(Mesh_ptr m, int np, int** part) {
  if (!g_parts) return __real_MESH_PartitionWithMetis(m, np, part);
  g_used = true; *part = (int*)malloc(g_parts->size() * sizeof(int));
  for (size_t i = 0; i < g_parts->size(); i++) (*part)[i] = (*g_parts)[i];
  return 1;
}
}

// What the ranks sent and received, put together on rank 0: every message is received, as what it was sent, and all ranks take part in the same collective calls.
static std::vector<std::vector<double>> world_gather(const std::vector<double>& v) {
  int wr, ws; PMPI_Comm_rank(MPI_COMM_WORLD, &wr); PMPI_Comm_size(MPI_COMM_WORLD, &ws); Par p; p.own = MPI_COMM_WORLD; p.rank = wr; p.np = ws; return par_gather(p, v);
}
static void judge_traffic(Ctx& c, const std::vector<Msg>& sent, const std::vector<Msg>& recd, const std::vector<double>& coll) {
  std::vector<double> v; for (int k = 0; k < 2; k++) for (auto& m : k ? recd : sent) for (double q : {(double)k, (double)m.self, (double)m.peer, (double)m.tag, (double)m.type, (double)m.bytes}) v.push_back(q);
  auto all = world_gather(v); auto co = world_gather(coll); if (all.empty()) return;
  typedef std::vector<int> Key; std::map<Key, std::vector<std::pair<int,long>>> S, R;
  for (auto& a : all) for (size_t i = 0; i + 5 < a.size(); i += 6) { int me = (int)a[i+1], pe = (int)a[i+2], tag = (int)a[i+3]; (a[i] ? R[{pe, me, tag}] : S[{me, pe, tag}]).push_back({(int)a[i+4], (long)a[i+5]}); }
  static const char* tn[] = {"?", "int", "double", "char", "unsigned", "long", "byte", "?", "?", "other"}; long n = 0;
  for (auto& q : R) S[q.first];
  for (auto& q : S) { auto& s = q.second; auto& r = R[q.first]; const Key& k = q.first;
    CHECK(c, s.size() == r.size(), s.size() > r.size() ? "traffic.not-received" : "traffic.not-sent", "rank %d sent %zu messages with tag %d to rank %d, which received %zu", k[0], s.size(), k[2], k[1], r.size());
    for (size_t i = 0; i < std::min(s.size(), r.size()); i++) { n++;
      CHECK(c, s[i].first == r[i].first, "traffic.type", "message %zu with tag %d from rank %d to rank %d was sent as %s and received as %s", i, k[2], k[0], k[1], tn[s[i].first], tn[r[i].first]);
      CHECK(c, r[i].second < 0 || s[i].second == r[i].second, "traffic.size", "message %zu with tag %d from rank %d to rank %d: %ld bytes sent, %ld received", i, k[2], k[0], k[1], s[i].second, r[i].second); } }
  c.count("messages_matched", n);
  const std::vector<double>* first = nullptr;
  for (auto& q : co) { if (q.empty()) continue; if (!first) { first = &q; c.count("collectives_matched", (long)q.size() / 4); continue; }
    size_t i = 0; while (i < q.size() && i < first->size() && q[i] == (*first)[i]) i++;
    CHECK(c, q == *first, "traffic.collectives", "two ranks differ in collective call %zu (of %zu and %zu)", i / 4, q.size() / 4, first->size() / 4); }
}

static std::string g_errname; static long g_idx; static int g_wrank;
static void on_alarm(int) { static const char m[] = "VERIF-TIMEOUT\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }

int main(int argc, char** argv) {
  if (argc < 8) { for (auto& k : case_kinds()) printf("%s %s %d\n", k.prop, k.name, k.weight); return 2; }
  std::string prop = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long from = atol(argv[3]), to = atol(argv[4]); int tier = atoi(argv[5]); std::string outname = argv[6]; int tmo = atoi(argv[7]);
  PMPI_Init(&argc, &argv); MSTK_Init();
  int wr, ws; PMPI_Comm_rank(MPI_COMM_WORLD, &wr); PMPI_Comm_size(MPI_COMM_WORLD, &ws); g_wrank = wr;
  g_errname = outname + ".err" + std::to_string(wr);
  int ef = open(g_errname.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644), nul = open("/dev/null", O_RDWR);
  dup2(ef, 2); dup2(nul, 1);
  std::vector<CaseKind> kinds; int tot = 0; bool mem = prop == "C21", mark = prop == "C28";
  for (auto& k : case_kinds()) if (prop == k.prop || mem || mark) kinds.push_back(k);
  std::sort(kinds.begin(), kinds.end(), [](const CaseKind& a, const CaseKind& b) { int q = strcmp(a.name, b.name); return q ? q < 0 : strcmp(a.prop, b.prop) < 0; });
  kinds.erase(std::unique(kinds.begin(), kinds.end(), [](const CaseKind& a, const CaseKind& b) { return !strcmp(a.name, b.name); }), kinds.end());
  for (auto& k : kinds) tot += k.weight;
  if (!tot) { PMPI_Finalize(); return 3; }
  int out = -1; if (!wr) out = open(outname.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  signal(SIGALRM, on_alarm);
  char wd[400]; snprintf(wd, sizeof wd, "%.380s/vfpXXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); if (!wr && !mkdtemp(wd)) return 3;
  PMPI_Bcast(wd, sizeof wd, MPI_CHAR, 0, MPI_COMM_WORLD); if (chdir(wd)) return 3;
  for (long idx = from; idx < to; idx++) {
    int w = (int)(idx % tot), ki = 0; while (w >= kinds[ki].weight) w -= kinds[ki++].weight;
    CaseKind K = kinds[ki]; g_idx = idx;
    if (!wr) emit(out, "K\t" + std::to_string(idx) + "\t" + K.name + "\n");
    PMPI_Barrier(MPI_COMM_WORLD);
    fflush(stderr); if (ftruncate(ef, 0)) {}
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    alarm(tmo);
    std::string rec;
    {
      Ctx c; c.rng = Rng(seed * 1000003ull + (uint64_t)idx * 7919ull + std::hash<std::string>()(std::string("par") + K.name) % 1000003ull);
      c.prop = prop; c.tier = tier; c.index = idx; c.mixs(K.name); c.muted = mem;
      std::map<std::string, long> calls; g_calls = &calls; long d0 = g_delays;
      memset(g_reports, 0, sizeof g_reports);
      if (mem) { g_blk = new std::unordered_map<void*, Blk>; g_track = true; }
      std::map<MPI_Request, Pend> pend; g_pend = &pend; std::vector<std::string> tr; g_traffic = &tr;
      std::vector<Msg> sent, recd; std::vector<double> coll; if (prop == "P11") { g_sent = &sent; g_recd = &recd; g_coll = &coll; }
      if (mark) mk_begin(&c);
      K.fn(c);
      if (mark) mk_end();
      g_sent = g_recd = nullptr; g_coll = nullptr; g_post.clear();
      if (prop == "P11") judge_traffic(c, sent, recd, coll);
      g_pend = nullptr; g_traffic = nullptr;
      if (prop == "P11") { for (auto& v : tr) { size_t t = v.find('\t'); CHECK(c, false, v.substr(0, t), "%s", v.c_str() + t + 1); }
        CHECK(c, pend.empty(), "traffic.request-left", "%zu requests of this rank were never completed", pend.size()); }
      std::string leak; if (g_track) { leak = left_allocated(); delete g_blk; }
      g_calls = nullptr; par_delays(0, 0);
      for (auto& q : calls) c.count(q.first.c_str(), q.second);
      if (g_delays > d0) c.count("delays_injected", g_delays - d0);
      if (!mem) for (auto& v : c.viol) rec += "V\t" + clean(v.key) + "\t" + clean(v.detail) + "\n";
      for (auto& kv : c.cnt) rec += "C\t" + kv.first + "\t" + std::to_string(kv.second) + "\n";
      for (int i = 1; i < 3; i++) if (g_reports[i]) rec += std::string("C\tlib_") + (i == 1 ? "warnings" : "errors") + "\t" + std::to_string(g_reports[i]) + "\n";
      if (!wr) { char b[64]; snprintf(b, sizeof b, "S\t%016llx\t%d\t", (unsigned long long)c.sig, (int)c.nontrivial); rec += b + clean(c.desc) + "\n"; }
      rec += leak;
    }
    fflush(stderr);
    if (FILE* f = fopen(g_errname.c_str(), "r")) {
      char buf[4096]; int n = 0;
      while (fgets(buf, sizeof buf, f)) if ((strstr(buf, "runtime error:") || strstr(buf, "AddressSanitizer") || strstr(buf, "    #")) && n++ < 60) rec += "E\t" + clean(buf) + "\n";
      fclose(f);
    }
    int n = (int)rec.size(); std::vector<int> ns(ws), off(ws);
    PMPI_Gather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
    int t = 0; for (int i = 0; i < ws; i++) { off[i] = t; t += ns[i]; }
    std::string all(wr ? 1 : t + 1, ' ');
    PMPI_Gatherv(rec.data(), n, MPI_CHAR, &all[0], ns.data(), off.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
    alarm(0);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (!wr) { all.resize(t); all += "T\t" + std::to_string((long)((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000)) + "\n"; emit(out, all); }
  }
  PMPI_Barrier(MPI_COMM_WORLD);
  if (chdir("/")) {}
  if (!wr) { emit(out, "Z\t" + std::to_string(to - from) + "\n"); std::string rm = std::string("rm -rf ") + wd; if (system(rm.c_str())) {} }
  unlink(g_errname.c_str());
  PMPI_Finalize();
  return 0;
}
