// U01: the command line tools, run as a user runs them (they are built with AddressSanitizer).
#include "meshcmp.h"
#include "exo.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <mpi.h>
extern char** environ;
static std::vector<std::string>& env0() { static std::vector<std::string> v; return v; }   // as it was before MPI put its own in
static struct Snap { Snap() { for (char** e = environ; *e; e++) env0().push_back(*e); } } snap;

static std::string tmpname(const char* e) { static std::atomic<int> n; char b[4096]; std::string d = getcwd(b, sizeof b) ? b : "/tmp"; return d + "/t" + std::to_string(getpid()) + "_" + std::to_string(++n) + e; }
static std::string slurp(const std::string& f) { std::string s; FILE* p = fopen(f.c_str(), "r"); if (!p) return s; char b[8192]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) s.append(b, k); fclose(p); return s; }
static bool is_file(const std::string& f) { struct stat s; return !stat(f.c_str(), &s) && S_ISREG(s.st_mode); }
struct Dir {                                              // a directory of the case's own, and the way back
  std::string d, old;
  Dir() { char b[4096]; old = getcwd(b, sizeof b) ? b : "/"; d = tmpname(".dir"); mkdir(d.c_str(), 0700); in(); }
  void in() { if (chdir(d.c_str())) abort(); }
  void out() { if (chdir(old.c_str())) abort(); }
  ~Dir() { out(); std::string r = "find '" + d + "' -delete"; if (system(r.c_str())) {} }
  std::vector<std::string> files() { std::vector<std::string> v; DIR* q = opendir(d.c_str()); if (!q) return v; while (dirent* e = readdir(q)) if (is_file(d + "/" + e->d_name)) v.push_back(e->d_name); closedir(q); std::sort(v.begin(), v.end()); return v; }
};
struct Ran { bool exited = false; int st = -1; std::string err; };
static std::string bin_dir() { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); std::string s(b, k > 0 ? k : 0); return s.substr(0, s.rfind('/')); }
static Ran run(Ctx& c, Dir& d, const char* name, std::vector<std::string> a, int np = 0, int again = 3) {
  Ran r; std::string ef = d.d + "/.err", of = d.d + "/.out"; std::vector<std::string> v;
  if (np) { v = {"mpiexec", "--allow-run-as-root", "--oversubscribe", "-n", std::to_string(np)}; }
  v.push_back(bin_dir() + "/" + name); v.insert(v.end(), a.begin(), a.end());
  std::string exe = np ? "/usr/bin/mpiexec" : v[0];
  pid_t p = fork();
  if (!p) {
    if (chdir(d.d.c_str())) _exit(126);
    int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), o = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); dup2(o, 1);
    std::vector<char*> av, ev; for (auto& s : v) av.push_back((char*)s.c_str()); av.push_back(nullptr); for (auto& s : env0()) ev.push_back((char*)s.c_str()); ev.push_back(nullptr);
    execve(exe.c_str(), av.data(), ev.data()); _exit(127);
  }
  int st = 0; int k = 0; double limit = 40;               // seconds
  while ((k = waitpid(p, &st, WNOHANG)) == 0 && limit > 0) { usleep(2000); limit -= 0.002; }
  if (!k) { kill(p, SIGKILL); waitpid(p, &st, 0); c.fail(std::string(name) + ".hangs", "no end after 40 s: %s", [&] { std::string s; for (auto& q : a) s += " " + q; return s; }().c_str()); r.err = slurp(ef); return r; }
  r.exited = WIFEXITED(st); r.st = r.exited ? WEXITSTATUS(st) : -WTERMSIG(st); r.err = slurp(ef);
  c.count("tool_runs");
  if (r.st == 127 || r.st == 126) { c.fail("harness", "cannot run %s", exe.c_str()); return r; }
  size_t q = r.err.find("ERROR: AddressSanitizer");
  if (q != std::string::npos && again > 0 && r.err.find(" T0)", q) == std::string::npos && r.err.find("/src/", q) == std::string::npos && r.err.find("SEGV", q) != std::string::npos) {
    c.count("mpi_thread_crashes");                        // in a thread of the MPI library (the tools have none) while it ends
    return run(c, d, name, a, np, again - 1);
  }
  CHECK(c, q == std::string::npos, std::string(name) + ".memory", "%s", r.err.substr(q == std::string::npos ? 0 : q, 600).c_str());
  CHECK(c, r.exited || q != std::string::npos, std::string(name) + ".killed", "ended by signal %d:%s", -r.st, [&] { std::string s; for (auto& w : a) s += " " + w; return s; }().c_str());
  return r;
}
static std::string tail(const std::string& s) { return s.size() > 300 ? s.substr(s.size() - 300) : s; }
static bool good(const Ran& r) { return r.exited && r.st == 0; }
static std::string undated(const std::string& s) { std::string o; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); if (s.compare(i, 7, "simdate")) o.append(s, i, e - i + 1); i = e + 1; } return o; }
static std::string ext(const std::string& f) { return f.substr(f.rfind('.') + 1); }

static Mesh_ptr read_as(const std::string& f, RepType rep = F1) {     // what the library reads
  std::string e = ext(f); Mesh_ptr m = MESH_New(e == "mstk" ? UNKNOWN_REP : rep); int opts[5] = {0, 0, 0, 0, 0}; int ok;
  if (e == "mstk") ok = MESH_InitFromFile(m, f.c_str(), MPI_COMM_SELF);
  else ok = MESH_ImportFromFile(m, f.c_str(), e == "exo" ? "exodusii" : e.c_str(), opts, MPI_COMM_SELF);
  if (!ok) { MESH_Delete(m); return nullptr; }
  return m;
}
static int write_as(Mesh_ptr m, const std::string& f, int natt) {
  std::string e = ext(f);
  if (e == "mstk") return MESH_WriteToFile(m, f.c_str(), MESH_RepType(m), MPI_COMM_SELF);
  if (e == "dx") return MESH_ExportToDX(m, f.c_str(), 1);
  return MESH_ExportToFile(m, f.c_str(), e == "exo" ? "exodusii" : e.c_str(), natt, nullptr, nullptr, MPI_COMM_SELF);
}
// the files two directories hold, other than those given
static void same_files(Ctx& c, const std::string& k, Dir& a, Dir& b, const std::set<std::string>& skip) {
  auto fa = a.files(), fb = b.files();
  auto drop = [&](std::vector<std::string>& v) { v.erase(std::remove_if(v.begin(), v.end(), [&](const std::string& s) { return s[0] == '.' || skip.count(s); }), v.end()); };
  drop(fa); drop(fb);
  auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& q : v) s += " " + q; return s; };
  CHECK(c, fa == fb, k + ".files", "the tool wrote%s, the library%s", join(fa).c_str(), join(fb).c_str());
  for (auto& f : fa) if (std::find(fb.begin(), fb.end(), f) != fb.end()) {
    c.count("files_compared");
    if (ext(f) == "exo") {
      Mesh_ptr x = read_as(a.d + "/" + f), y = read_as(b.d + "/" + f);
      CHECK(c, x && y, k + ".exo.read", "cannot be read");
      if (x && y) { Dump p = dump_mesh(x), q = dump_mesh(y); same_dump(c, k + ".exo", p, q); }
      if (x) MESH_Delete(x);
      if (y) MESH_Delete(y);
    } else { std::string p = undated(slurp(a.d + "/" + f)), q = undated(slurp(b.d + "/" + f)); size_t i = 0; while (i < p.size() && i < q.size() && p[i] == q[i]) i++;
      CHECK(c, p == q, k + "." + ext(f), "%s differs from the library's at byte %zu of %zu/%zu: '%s' and '%s'", f.c_str(), i, p.size(), q.size(), p.substr(i, 40).c_str(), q.substr(i, 40).c_str()); }
  }
}
// a mesh any format can hold, in a file called in.EXT of both directories
static Mesh_ptr input(Ctx& c, Dir& a, Dir& b, const std::string& e, Model& m, bool tri, bool tet) {
  Rng& g = c.rng; GenOpt o; o.size = tri || tet ? 2 : 3; o.manifold = true; o.planar = true; o.connected = true; o.convexish = true; o.many = false;
  for (int k = 0; k < 60; k++) {
    m = tet || (!tri && g.chance(0.6)) ? gen3(g, o) : gen2(g, o);
    if (tri) { bool ok = true; for (auto& f : m.f) ok &= f.v.size() == 3; if (ok && m.dim == 2) break; }
    else if (tet) { bool ok = true; for (auto& r : m.r) ok &= r.type == T_TET; if (ok) break; }
    else break;
  }
  m.nxf = 0; m.xe.clear(); if (m.dim == 3) m.f.clear(); compact(m);
  if (m.dim == 2) for (auto& x : m.x) x[2] = 0;
  for (auto& r : m.r) r.gid = g.range(1, 3);
  for (auto& f : m.f) { f.gdim = 2; f.gid = g.range(1, 3); }
  RepType rep = e == "mstk" && g.chance(0.3) ? F4 : F1;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  for (void* p : all_of(w.m, m.dim)) { MEnt_Set_GEntDim(p, m.dim); MEnt_Set_GEntID(p, g.range(1, 3)); }
  if (e == "mstk") for (int i = g.below(3); i > 0; i--) { MAttrib_ptr t = MAttrib_New(w.m, ("q" + std::to_string(i)).c_str(), g.chance(0.5) ? INT : DOUBLE, m.dim == 3 ? MREGION : MFACE); for (void* p : all_of(w.m, m.dim)) MEnt_Set_AttVal((MEntity_ptr)p, t, g.range(1, 99), g.range(1, 99), nullptr); }
  for (Dir* d : {&a, &b}) { d->in(); if (!write_as(w.m, "in." + e, 0)) c.fail("harness", "cannot write in.%s", e.c_str()); }
  b.out();
  // whatever the writer itself put beside the mesh is not the tool's
  return w.m;
}

// every face of the surface or every cell, by the sorted positions of its vertices
static std::multiset<std::vector<std::vector<long>>> shapes(Mesh_ptr m, int D) {
  std::multiset<std::vector<std::vector<long>>> s;
  for (void* p : all_of(m, D)) { std::vector<std::vector<long>> v; for (void* q : take(D == 3 ? MR_Vertices(p) : MF_Vertices(p, 1, 0))) { double x[3]; MV_Coords(q, x); v.push_back({lround(x[0] * 1e4), lround(x[1] * 1e4), lround(x[2] * 1e4)}); } std::sort(v.begin(), v.end()); s.insert(v); }
  return s;
}

CASE(U01, meshconvert, 4) {
  Rng& g = c.rng; Dir a, b; Model m;
  std::string ie = g.pick(std::vector<std::string>{"mstk", "mstk", "exo", "gmv", "x3d"}), oe = g.pick(std::vector<std::string>{"mstk", "exo", "gmv", "x3d", "off", "stl", "dx"});
  Mesh_ptr src = input(c, a, b, ie, m, oe == "stl", false);
  auto before = a.files();
  std::vector<std::string> args; int cls = g.below(4); const char* C[] = {"", "0", "1", "2"}; bool build_cls = cls != 1, geo = cls == 3, topo = false;
  if (cls) args.push_back(std::string("--classify=") + (cls == 1 ? (g.chance(0.5) ? "n" : "0") : cls == 2 ? (g.chance(0.5) ? "y" : "1") : C[cls]));
  if (g.chance(0.3)) { topo = g.chance(0.6); args.push_back(std::string("--check-topo=") + (topo ? (g.chance(0.5) ? "y" : "1") : (g.chance(0.5) ? "n" : "0"))); }
  if (g.chance(0.2)) args.push_back(g.chance(0.5) ? "--partition=n" : "--partition=0");
  if (g.chance(0.1)) args.push_back("--nosuchoption=3");
  g.shuffle(args); std::string opt; for (auto& s : args) opt += s + " ";
  args.push_back("in." + ie); args.push_back("out." + oe);
  Ran r = run(c, a, "meshconvert", args);
  std::string k = "meshconvert." + ie;
  b.in();
  Mesh_ptr n = read_as("in." + ie); CHECK(c, n != nullptr, k + ".library-read", "the library cannot read in.%s", ie.c_str()); if (!n) return;
  auto sh = shapes(n, m.dim); bool cok = true; Dump raw = dump_mesh(n);
  if (build_cls) MESH_BuildClassfn(n, geo);
  if (topo) cok = MESH_CheckTopo(n);
  bool wok = cok && write_as(n, "out." + oe, 0) == 1; b.out();
  CHECK(c, good(r) == wok, k + "." + oe + ".status", "%s in.%s out.%s: status %d, the library's check says %d, its writer %d: %s", opt.c_str(), ie.c_str(), oe.c_str(), r.st, (int)cok, (int)wok, tail(r.err).c_str());
  if (wok) {
    std::set<std::string> skip(before.begin(), before.end()); if (ie == "x3d" && oe == "x3d") skip = {"in.x3d"};
    same_files(c, k, a, b, skip);
    if (oe == "mstk" || oe == "exo" || oe == "gmv" || oe == "x3d") {          // and judged without the library's writer
      Mesh_ptr q = is_file(a.d + "/out." + oe) ? read_as(a.d + "/out." + oe) : nullptr; CHECK(c, q != nullptr, k + "." + oe + ".read", "out.%s cannot be read", oe.c_str());
      if (q) {
        CHECK(c, shapes(q, m.dim) == sh && MESH_Num_Vertices(q) == MESH_Num_Vertices(src) && MESH_Num_Edges(q) == MESH_Num_Edges(src) && MESH_Num_Faces(q) == MESH_Num_Faces(src), k + "." + oe + ".mesh", "out.%s is another mesh", oe.c_str());
        if (ie == "mstk" && oe == "mstk") { Dump x = dump_mesh(q); if (build_cls) { Dump z = dump_mesh(n); same_dump(c, k + ".same", x, z); CHECK(c, x.attorder == z.attorder, k + ".same.atts", "attributes"); } else same_dump(c, k + ".same", x, raw); }
        MESH_Delete(q);
      }
    }
  }
  c.mix(model_hash(m)); c.mixs((ie + oe + opt).c_str()); c.nontrivial = m.r.size() + m.f.size() > 1; c.note("%sin.%s out.%s (%s)", opt.c_str(), ie.c_str(), oe.c_str(), m.kind.c_str());
  MESH_Delete(n); MESH_Delete(src);
}

CASE(U01, mkstruc, 2) {
  Rng& g = c.rng; Dir a, b; bool solid = g.chance(0.5), named = g.chance(0.7); int D = solid ? 3 : 2;
  double lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0}; int n[3] = {0, 0, 0}; std::vector<std::string> args; auto num = [](double v) { char q[40]; snprintf(q, sizeof q, "%.17g", v); return std::string(q); };
  for (int i = 0; i < D; i++) { lo[i] = g.chance(0.5) ? g.range(-3, 3) : g.real(-3, 3); hi[i] = lo[i] + (g.chance(0.5) ? g.range(1, 4) : g.real(0.1, 4)); n[i] = g.range(1, solid ? 4 : 7); }
  for (int i = 0; i < D; i++) args.push_back(num(lo[i]));
  for (int i = 0; i < D; i++) args.push_back(num(hi[i]));
  for (int i = 0; i < D; i++) args.push_back(std::to_string(n[i]));
  std::string f = "struct.mstk"; if (named) { f = "mine.mstk"; args.push_back(f); }
  Ran r = run(c, a, "mkstruc", args); std::string k = solid ? "mkstruc.solid" : "mkstruc.planar";
  CHECK(c, r.exited && is_file(a.d + "/" + f), k + ".status", "no %s: %s", f.c_str(), tail(r.err).c_str());
  b.in(); Mesh_ptr w = MESH_Gen_Structured(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], n[0], n[1], n[2]); MESH_WriteToFile(w, f.c_str(), F1, MPI_COMM_SELF); b.out();
  same_files(c, k, a, b, {});
  Mesh_ptr q = is_file(a.d + "/" + f) ? read_as(a.d + "/" + f) : nullptr;
  if (q) {
    long nv = (long)(n[0] + 1) * (n[1] + 1) * (solid ? n[2] + 1 : 1), ne = (long)n[0] * n[1] * (solid ? n[2] : 1);
    CHECK(c, MESH_Num_Vertices(q) == nv && (solid ? MESH_Num_Regions(q) : MESH_Num_Faces(q)) == ne, k + ".counts", "%d vertices, %d faces, %d regions", MESH_Num_Vertices(q), MESH_Num_Faces(q), MESH_Num_Regions(q));
    double vol = 0; for (void* p : all_of(q, D)) for (int i = 0; i < 1; i++) { double l[3] = {1e30, 1e30, 1e30}, h[3] = {-1e30, -1e30, -1e30}; for (void* v : take(D == 3 ? MR_Vertices(p) : MF_Vertices(p, 1, 0))) { double x[3]; MV_Coords(v, x); for (int j = 0; j < 3; j++) { l[j] = std::min(l[j], x[j]); h[j] = std::max(h[j], x[j]); } }
      vol += (h[0] - l[0]) * (h[1] - l[1]) * (D == 3 ? h[2] - l[2] : 1); for (int j = 0; j < D; j++) CHECK(c, fabs((h[j] - l[j]) - (hi[j] - lo[j]) / n[j]) < 1e-6, k + ".size", "a cell is %g wide in direction %d", h[j] - l[j], j); }
    double want = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (D == 3 ? hi[2] - lo[2] : 1); CHECK(c, fabs(vol - want) < 1e-5 * (1 + want), k + ".volume", "%g, should be %g", vol, want);
    CHECK(c, MESH_CheckTopo(q), k + ".check", "does not pass the check");
    MESH_Delete(q);
  } else c.fail(k + ".read", "cannot be read");
  for (auto& s : args) c.mixs(s.c_str()); c.nontrivial = n[0] * n[1] > 1; c.note("%d x %d x %d", n[0], n[1], n[2]);
  MESH_Delete(w);
}

CASE(U01, split_tool, 3) {
  Rng& g = c.rng; Dir a, b; Model m; bool tet = g.chance(0.6); const char* tool = tet ? "tet2hex" : "tri2quad";
  std::string ie = g.pick(std::vector<std::string>{"mstk", "mstk", "exo", "gmv", "x3d"}), oe = g.pick(std::vector<std::string>{"mstk", "exo", "gmv", "x3d"});
  Mesh_ptr src = input(c, a, b, ie, m, !tet, tet); auto before = a.files(); int D = tet ? 3 : 2;
  bool ok = true; for (auto& r : m.r) ok &= r.type == T_TET; for (auto& f : m.f) ok &= tet || f.v.size() == 3;
  if (!ok) { MESH_Delete(src); c.note("no such mesh"); return; }
  Ran r = run(c, a, tool, {"in." + ie, "out." + oe}); std::string k = std::string(tool) + "." + ie;
  CHECK(c, good(r), k + ".status", "in.%s out.%s: status %d: %s", ie.c_str(), oe.c_str(), r.st, tail(r.err).c_str());
  b.in(); Mesh_ptr n = read_as("in." + ie), h = nullptr; if (!n) { c.fail("harness", "cannot read"); return; }
  if (tet) MESH_Tet2Hex(n, &h); else MESH_Tri2Quad(n, &h);
  if (!h) { c.fail(k + ".library", "the library does not convert"); return; }
  write_as(h, "out." + oe, -1); b.out();
  std::set<std::string> skip(before.begin(), before.end()); if (oe == "x3d") skip = {"in.x3d"};
  same_files(c, k, a, b, skip);
  Mesh_ptr q = is_file(a.d + "/out." + oe) ? read_as(a.d + "/out." + oe) : nullptr;
  if (q) {
    int nc = MESH_Num_Regions(q) ? MESH_Num_Regions(q) : MESH_Num_Faces(q), n0 = D == 3 ? MESH_Num_Regions(src) : MESH_Num_Faces(src);
    CHECK(c, nc == n0 * (D == 3 ? 4 : 3), k + ".counts", "%d elements of %d", nc, n0);
    for (void* p : all_of(q, D)) CHECK(c, take(D == 3 ? MR_Vertices(p) : MF_Vertices(p, 1, 0)).size() == (D == 3 ? 8u : 4u), k + ".shape", "an element has other than %d vertices", D == 3 ? 8 : 4);
    int fine = D == 3 ? MESH_Num_Vertices(src) + MESH_Num_Edges(src) + MESH_Num_Faces(src) + MESH_Num_Regions(src) : MESH_Num_Vertices(src) + MESH_Num_Edges(src) + MESH_Num_Faces(src);
    CHECK(c, MESH_Num_Vertices(q) == fine, k + ".vertices", "%d vertices, should be %d", MESH_Num_Vertices(q), fine);
    MESH_Delete(q);
  } else c.fail(k + ".read", "out.%s cannot be read", oe.c_str());
  c.mix(model_hash(m)); c.mixs((ie + oe + tool).c_str()); c.nontrivial = m.r.size() + m.f.size() > 1; c.note("%s in.%s out.%s (%s)", tool, ie.c_str(), oe.c_str(), m.kind.c_str());
  MESH_Delete(h); MESH_Delete(n); MESH_Delete(src);
}

CASE(U01, chkmesh, 2) {
  Rng& g = c.rng; Dir a; bool mirror = g.chance(0.35); std::string e = mirror ? "mstk" : g.pick(std::vector<std::string>{"mstk", "exo", "gmv"});   // other readers may set a cell right
  GenOpt o; o.size = 3; o.convexish = true; o.manifold = true; o.connected = true; o.planar = true; o.many = false;
  Model m = mirror || g.chance(0.7) ? gen3(g, o) : gen2(g, o); m.nxf = 0; m.xe.clear(); if (m.dim == 3) m.f.clear(); compact(m);
  if (m.dim == 2) for (auto& x : m.x) x[2] = 0;
  if (mirror) for (auto& x : m.x) x[0] = -x[0];
  // the volume of every element from its centre, face by face, face centre by face centre: what the tool calls valid
  double worst = 1e30; bool inv = true;
  if (m.dim == 3) { Topo t = topo(m); (void)t; }
  MView w = build(g, m, F1, rand_build(g, F1, m.dim)); MESH_BuildClassfn(w.m, 0);
  for (void* p : all_of(w.m, 3)) {
    V3 cen = {0, 0, 0}; PV rv = take(MR_Vertices(p)); for (void* v : rv) { double x[3]; MV_Coords(v, x); for (int j = 0; j < 3; j++) cen[j] += x[j] / rv.size(); }
    double vol = 0, scale = 0, low = 1e30; List_ptr l = MR_Faces(p);
    for (int i = 0; i < List_Num_Entries(l); i++) {
      std::vector<V3> P; for (void* v : take(MF_Vertices(List_Entry(l, i), MR_FaceDir_i(p, i), 0))) { double x[3]; MV_Coords(v, x); P.push_back({x[0], x[1], x[2]}); }
      V3 fc = {0, 0, 0}; for (auto& q : P) for (int j = 0; j < 3; j++) fc[j] += q[j] / P.size();
      auto vol4 = [&](const V3& A, const V3& B, const V3& C) { double u[3], v[3], z[3]; for (int j = 0; j < 3; j++) { u[j] = A[j] - cen[j]; v[j] = B[j] - cen[j]; z[j] = C[j] - cen[j]; } return (u[0] * (v[1] * z[2] - v[2] * z[1]) - u[1] * (v[0] * z[2] - v[2] * z[0]) + u[2] * (v[0] * z[1] - v[1] * z[0])) / 6; };
      if (P.size() == 3) { double q = vol4(P[0], P[1], P[2]); vol += q; low = std::min(low, q); scale += fabs(q); }
      else for (size_t j = 0; j < P.size(); j++) { double q = vol4(fc, P[j], P[(j + 1) % P.size()]); vol += q; low = std::min(low, q); scale += fabs(q); }
    }
    List_Delete(l); worst = std::min(worst, low / (scale > 0 ? scale : 1)); if (vol > -1e-6 * scale) inv = false;
  }
  bool valid = m.dim == 2 || worst > 1e-6;
  std::string f = "in." + e; a.in(); if (!write_as(w.m, f, 0)) c.fail("harness", "cannot write"); a.out();
  Ran r = run(c, a, "chkmesh", {f}); std::string k = "chkmesh." + e; bool ok = r.err.find("A-OK") != std::string::npos;
  CHECK(c, r.exited && (r.st == 0 || r.st == 1), k + ".status", "status %d: %s", r.st, tail(r.err).c_str());
  if (valid && !mirror) { CHECK(c, ok, k + ".rejected", "a valid %s mesh is rejected: %s", m.kind.c_str(), tail(r.err).c_str()); CHECK(c, !is_file(a.d + "/badelems.gmv"), k + ".badelems", "elements of a valid mesh marked bad"); c.count("accepted"); }
  else if (mirror && inv) { c.count("inside_out"); CHECK(c, !ok, k + ".accepted", "a %s mesh whose elements are all inside out is accepted", m.kind.c_str()); CHECK(c, is_file(a.d + "/badelems.gmv"), k + ".badelems", "no badelems.gmv for a bad mesh"); 
    char want[60]; snprintf(want, sizeof want, "bad elements %d", MESH_Num_Regions(w.m)); CHECK(c, r.err.find(want) != std::string::npos, k + ".count", "'%s' expected: %s", want, tail(r.err).c_str()); }
  c.mix(model_hash(m)); c.mixs(e.c_str()); c.mix(mirror); c.nontrivial = m.r.size() + m.f.size() > 1; c.note("%s%s in.%s", mirror ? "inside out " : "", m.kind.c_str(), e.c_str());
  MESH_Delete(w.m);
}

// elements of an Exodus II file by the sorted numbers of their vertices
static std::vector<IV> elems(const ExoFile& F) { std::vector<IV> o; for (auto& B : F.blk) for (auto& q : B.conn) { IV v; if (ieq(B.type, "NFACED")) { for (int f : q) for (int n : F.faces[f]) v.push_back(n); } else v = q; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); o.push_back(v); } return o; }

CASE(U01, exoatt, 3) {
  Rng& g = c.rng; Dir a, b; Model m; Mesh_ptr src = input(c, a, b, "exo", m, false, false); MESH_Delete(src);
  ExoFile F = exo_read((a.d + "/in.exo").c_str()); if (!F.err.empty()) { c.fail("harness", "%s", F.err.c_str()); return; }
  auto E = elems(F); int nn = (int)F.x.size(), ne = (int)E.size(), D = m.dim;
  std::string at, st; std::vector<std::string> args; std::map<std::string, std::vector<double>> nodev, cellv; std::map<int, IV> ns, es; std::map<int, std::vector<IV>> ss;
  auto num = [](double v) { char q[40]; snprintf(q, sizeof q, "%.17g", v); return std::string(q); };
  auto word = [&](const char* w) { std::string s = w; for (char& ch : s) if (g.chance(0.3)) ch = (char)tolower(ch); return s; };
  int na = g.below(4), k = g.below(4); bool use_a = na > 0 || g.chance(0.3), use_s = k > 0;
  at = std::to_string(na) + "\n";
  for (int i = 0; i < na; i++) {
    bool node = g.chance(0.5), all = g.chance(0.4); int n = node ? nn : ne; std::string nm = (node ? "nv" : "cv") + std::to_string(i); std::vector<double> v(n, 0.0);
    IV which; for (int j = 0; j < n; j++) if (all || g.chance(0.4)) which.push_back(j); if (!all) g.shuffle(which);
    at += nm + " " + word(node ? "NODE" : "CELL") + " " + std::to_string(all ? -1 : (int)which.size()) + "\n";
    for (int j : which) { v[j] = g.chance(0.2) ? g.range(-9, 9) : g.real(-1e3, 1e3); at += all ? num(v[j]) + (g.chance(0.3) ? "\n" : " ") : std::to_string(j + 1) + " " + num(v[j]) + "\n"; }
    if (!all || which.empty()) at += "";
    at += "\n"; (node ? nodev : cellv)[nm] = v;
  }
  // sides on one element only, by their vertices
  std::vector<IV> side; { std::map<IV, std::pair<int, IV>> cnt; for (int e = 0; e < ne; e++) for (int s = 0; s < 600; s++) { IV q = exo_side(F, e, s); if (q.empty()) break; auto& z = cnt[sorted(q)]; z.first++; z.second = q; } for (auto& z : cnt) if (z.second.first == 1) side.push_back(z.second.second); }
  st = std::to_string(k) + "\n";
  for (int i = 0; i < k; i++) {
    int id = i * 10 + g.range(1, 9), what = g.below(3); IV pick; int n = what == 0 ? nn : what == 1 ? ne : (int)side.size(); for (int j = 0; j < n; j++) if (g.chance(0.4)) pick.push_back(j); if (pick.empty()) pick.push_back(g.below(n)); g.shuffle(pick);
    st += std::to_string(id) + " " + word(what == 0 ? "NODE" : what == 1 ? "CELL" : "FACE") + " " + std::to_string(pick.size()) + "\n";
    for (int j : pick) { if (what < 2) st += std::to_string(j + 1) + "\n"; else { IV v = side[j]; if (g.chance(0.5)) { if (D == 2) std::reverse(v.begin(), v.end()); else g.shuffle(v); } if (D == 3) st += std::to_string(v.size()) + " "; for (int q : v) st += std::to_string(q + 1) + " "; st += "\n"; } }
    if (what == 0) ns[id] = pick; else if (what == 1) es[id] = pick; else for (int j : pick) ss[id].push_back(side[j]);
  }
  auto put = [&](const char* n, const std::string& s) { FILE* f = fopen((a.d + "/" + n).c_str(), "w"); fputs(s.c_str(), f); fclose(f); };
  if (use_a) { put("atts.txt", at); args.push_back("--attfile=atts.txt"); }
  if (use_s) { put("sets.txt", st); args.push_back("--setfile=sets.txt"); }
  if (g.chance(0.3)) args.push_back("--partition=n");
  g.shuffle(args); args.push_back("in.exo"); args.push_back("out.exo");
  Ran r = run(c, a, "exoatt", args); std::string K = "exoatt.";
  CHECK(c, r.exited && (r.st == 0 || r.st == 1) && is_file(a.d + "/out.exo"), K + "status", "status %d: %s", r.st, tail(r.err).c_str());
  ExoFile O = exo_read((a.d + "/out.exo").c_str()); CHECK(c, O.err.empty(), K + "file", "%s", O.err.c_str());
  if (O.err.empty()) {
    // nodes are known by where they are
    std::map<V3, int> where; for (int i = 0; i < nn; i++) where[F.x[i]] = i; IV nto(nn, -1), back(O.x.size(), -1); bool nodes = O.x.size() == F.x.size() && (int)where.size() == nn;
    for (size_t i = 0; i < O.x.size(); i++) { auto it = where.find(O.x[i]); if (it == where.end()) { nodes = false; break; } back[i] = it->second; nto[it->second] = (int)i; }
    CHECK(c, nodes, K + "nodes", "%zu nodes, not those of the input (%d)", O.x.size(), nn);
    auto old = [&](const IV& v) { IV o; for (int q : v) o.push_back(q >= 0 && q < (int)back.size() ? back[q] : -1); return sorted(o); };
    auto Q = elems(O); for (auto& q : Q) q = old(q); std::map<IV, int> pos; for (int i = 0; i < (int)Q.size(); i++) pos[Q[i]] = i;
    CHECK(c, nodes && Q.size() == E.size(), K + "mesh", "%zu nodes and %zu elements, the input had %zu and %zu", O.x.size(), Q.size(), F.x.size(), E.size());
    IV to; bool all = Q.size() == E.size(); for (auto& e : E) { auto it = pos.find(e); if (it == pos.end()) { all = false; break; } to.push_back(it->second); } CHECK(c, all, K + "elements", "an element of the input is not in the output");
    if (all && nodes) {
      auto vars = [&](const char* what, std::vector<ExoVar>& V, std::map<std::string, std::vector<double>>& want, bool cell) {
        for (auto& w : want) { const std::vector<double>* v = nullptr; for (auto& q : V) if (q.name == w.first) v = &q.v; bool any = false; for (double d : w.second) any |= d != 0; if (!v) { CHECK(c, !any, K + what + ".missing", "%s is not in the output", w.first.c_str()); continue; }
          for (size_t i = 0; i < w.second.size(); i++) { double h = (*v)[cell ? to[i] : nto[i]]; CHECK(c, h == w.second[i], K + what + ".value", "%s of %zu is %.17g, should be %.17g", w.first.c_str(), i + 1, h, w.second[i]); } }
        for (auto& q : V) CHECK(c, want.count(q.name), K + what + ".extra", "%s was not asked for", q.name.c_str());
      };
      if (!use_a) { nodev.clear(); cellv.clear(); }
      vars("node", O.nvar, nodev, false); vars("cell", O.evar, cellv, true);
      for (auto& s : ns) { CHECK(c, O.nset.count(s.first), K + "nodeset.missing", "node set %d", s.first); if (O.nset.count(s.first)) CHECK(c, old(O.nset[s.first]) == sorted(s.second), K + "nodeset", "node set %d is %s, should be %s", s.first, show(old(O.nset[s.first])).c_str(), show(sorted(s.second)).c_str()); }
      for (auto& s : es) { IV w; for (int j : s.second) w.push_back(to[j]); CHECK(c, O.eset.count(s.first), K + "elemset.missing", "element set %d", s.first); if (O.eset.count(s.first)) CHECK(c, sorted(O.eset[s.first]) == sorted(w), K + "elemset", "element set %d is %s, should be %s", s.first, show(sorted(O.eset[s.first])).c_str(), show(sorted(w)).c_str()); }
      for (auto& s : ss) { std::multiset<IV> w, h; for (auto& v : s.second) w.insert(sorted(v)); CHECK(c, O.sset.count(s.first), K + "sideset.missing", "side set %d", s.first); if (O.sset.count(s.first)) { for (auto& q : O.sset[s.first]) h.insert(old(exo_side(O, q.first, q.second))); CHECK(c, h == w, K + "sideset", "side set %d has %zu sides, should have %zu", s.first, h.size(), w.size()); } }
      for (auto& q : O.nset) CHECK(c, ns.count(q.first), K + "nodeset.extra", "node set %d", q.first);
      for (auto& q : O.eset) CHECK(c, es.count(q.first), K + "elemset.extra", "element set %d", q.first);
      for (auto& q : O.sset) CHECK(c, ss.count(q.first) || F.sset.count(q.first), K + "sideset.extra", "side set %d", q.first);
    }
  }
  c.count("attributes", na); c.count("sets", k); c.mix(model_hash(m)); c.mixs((at + st).c_str()); c.nontrivial = na + k > 0; c.note("%s: %d attributes, %d sets", m.kind.c_str(), na, k);
}
