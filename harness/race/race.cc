// C27: threads that only read one mesh, threads that work on meshes of their own. Built with ThreadSanitizer.
#include "meshcmp.h"
#include <mpi.h>
#include <thread>
#include <sched.h>
#include <unistd.h>
#include <pthread.h>

struct Start { pthread_barrier_t b; Start(int n) { pthread_barrier_init(&b, nullptr, n); } ~Start() { pthread_barrier_destroy(&b); } void go() { pthread_barrier_wait(&b); } };
static void shake(Rng& g) { if (g.chance(0.1)) { if (g.chance(0.5)) sched_yield(); else usleep(g.range(1, 60)); } }
static void gather(Ctx& c, std::vector<Ctx>& t, const char* pre) {
  for (auto& q : t) { for (auto& v : q.viol) c.fail(std::string(pre) + v.key, "%s", v.detail.c_str()); for (auto& k : q.cnt) c.cnt[k.first] += k.second; }
}

// everything else that only reads: a number per query
static uint64_t mixd(uint64_t h, double d) { uint64_t u; memcpy(&u, &d, 8); return (h ^ u) * 1099511628211ull; }
static uint64_t mixi(uint64_t h, uint64_t u) { return (h ^ (u + 0x9E37)) * 1099511628211ull; }
struct Net { Mesh_ptr m; PV e[4]; std::vector<MAttrib_ptr> att; std::vector<MSet_ptr> set; std::unordered_map<void*, int> no; };
static uint64_t number(const Net& n, void* p) { auto it = n.no.find(p); return it == n.no.end() ? 999999 : it->second; }
static const int NQ = 16;
static uint64_t ask(const Net& n, int q, int d, int i) {
  uint64_t h = 1469598103934665603ull; void* p = n.e[d][i]; void *o = n.e[(d + i) % 4].empty() ? p : n.e[(d + i) % 4][i % n.e[(d + i) % 4].size()];
  int od = MEnt_Dim((MEntity_ptr)o);
  switch (q) {
    case 0: h = mixi(h, MEnt_Dim((MEntity_ptr)p)); h = mixi(h, MEnt_ID((MEntity_ptr)p)); h = mixi(h, MEnt_GEntDim((MEntity_ptr)p)); h = mixi(h, MEnt_GEntID((MEntity_ptr)p)); h = mixi(h, MEnt_GlobalID((MEntity_ptr)p)); h = mixi(h, MEnt_PType((MEntity_ptr)p)); h = mixi(h, MEnt_MasterParID((MEntity_ptr)p)); break;
    case 1: { double x[3] = {0, 0, 0}; double X[MAXPV3][3]; int nn = 0;
      if (d == 0) { MV_Coords(p, x); for (double v : x) h = mixd(h, v); }
      else if (d == 1) { h = mixd(h, ME_Len(p)); ME_Vec(p, x); for (double v : x) h = mixd(h, v); h = mixd(h, ME_LenSqr(p)); }
      else { if (d == 2) MF_Coords(p, &nn, X); else MR_Coords(p, &nn, X); for (int k = 0; k < nn; k++) for (int j = 0; j < 3; j++) h = mixd(h, X[k][j]); }
      break; }
    case 2: for (auto a : n.att) { int iv = 0; double dv = 0; void* pv = nullptr; int got = MEnt_Get_AttVal((MEntity_ptr)p, a, &iv, &dv, &pv); h = mixi(h, got); MAttType t = MAttrib_Get_Type(a);
        if (got) { if (t == INT) h = mixi(h, iv); else if (t == DOUBLE) h = mixd(h, dv); else if (t == POINTER) h = mixi(h, number(n, pv)); else if (pv) for (int k = 0; k < MAttrib_Get_NumComps(a); k++) h = mixd(h, ((double*)pv)[k]); } } break;
    case 3: for (auto s : n.set) { h = mixi(h, MSet_Contains(s, p) != 0); h = mixi(h, MSet_Num_Entries(s)); if (i < MSet_Num_Entries(s)) h = mixi(h, number(n, MSet_Entry(s, i))); } break;
    case 4: { int id = MEnt_ID((MEntity_ptr)p); void* r = d == 0 ? (void*)MESH_VertexFromID(n.m, id) : d == 1 ? (void*)MESH_EdgeFromID(n.m, id) : d == 2 ? (void*)MESH_FaceFromID(n.m, id) : (void*)MESH_RegionFromID(n.m, id); h = mixi(h, number(n, r)); break; }
    case 5: { char nm[600]; for (auto a : n.att) { MAttrib_Get_Name(a, nm); h = mixi(h, MESH_AttribByName(n.m, nm) == a); h = mixi(h, MAttrib_Get_EntDim(a)); } for (auto s : n.set) { MSet_Name(s, nm); h = mixi(h, MESH_MSetByName(n.m, nm) == s); } h = mixi(h, MESH_AttribByName(n.m, "nothere") == nullptr); break; }
    case 6: h = mixi(h, MESH_Num_Vertices(n.m)); h = mixi(h, MESH_Num_Edges(n.m)); h = mixi(h, MESH_Num_Faces(n.m)); h = mixi(h, MESH_Num_Regions(n.m)); h = mixi(h, MESH_Num_Attribs(n.m)); h = mixi(h, MESH_Num_MSets(n.m)); h = mixi(h, (int)MESH_RepType(n.m)); break;
    case 7: { void* r = d == 0 ? (void*)MESH_Vertex(n.m, i) : d == 1 ? (void*)MESH_Edge(n.m, i) : d == 2 ? (void*)MESH_Face(n.m, i) : (void*)MESH_Region(n.m, i); h = mixi(h, number(n, r)); break; }
    case 8: if (d == 1) { for (void* f : take(ME_Faces(p))) { h = mixi(h, number(n, f)); h = mixi(h, MF_EdgeDir(f, p)); } for (void* r : take(ME_Regions(p))) h = mixi(h, number(n, r)); h = mixi(h, number(n, ME_OppVertex(p, ME_Vertex(p, 0)))); }
            else if (d == 2) { for (void* v : take(MF_Vertices(p, 1, 0))) { h = mixi(h, number(n, v)); } for (void* e : take(MF_Edges(p, 0, 0))) h = mixi(h, number(n, e)); h = mixi(h, number(n, MF_Region(p, 0))); h = mixi(h, number(n, MF_Region(p, 1))); h = mixi(h, MF_Num_Vertices(p)); }
            else if (d == 3) { for (void* f : take(MR_Faces(p))) { h = mixi(h, number(n, f)); h = mixi(h, MR_FaceDir(p, f)); } for (void* e : take(MR_Edges(p))) h = mixi(h, number(n, e)); for (void* v : take(MR_Vertices(p))) h = mixi(h, number(n, v)); h = mixi(h, MR_Num_Faces(p)); h = mixi(h, MR_ElementType(p)); }
            else { for (void* e : take(MV_Edges(p))) h = mixi(h, number(n, e)); for (void* f : take(MV_Faces(p))) h = mixi(h, number(n, f)); for (void* r : take(MV_Regions(p))) h = mixi(h, number(n, r)); h = mixi(h, MV_Num_Edges(p)); h = mixi(h, MV_Num_Faces(p)); h = mixi(h, MV_Num_Regions(p)); }
            break;
    case 9: if (d == 2) h = mixi(h, MF_UsesEntity(p, (MEntity_ptr)o, od < 2 ? od : 0)); else if (d == 3) h = mixi(h, MR_UsesEntity(p, (MEntity_ptr)o, od < 3 ? od : 0)); else if (d == 1) h = mixi(h, ME_UsesEntity(p, (MEntity_ptr)o, 0)); break;
    case 10: if (d == 0) for (void* v : take(MV_AdjVertices(p))) h = mixi(h, number(n, v)); else if (d == 3) for (void* r : take(MR_AdjRegions(p))) h = mixi(h, number(n, r)); break;
    case 11: if (d == 0 && od == 0) h = mixi(h, number(n, MVs_CommonEdge(p, o))); else if (d == 1 && od == 1) { void* q[2] = {p, o}; h = mixi(h, number(n, MEs_CommonFace(2, q))); } break;
    case 12: h = mixi(h, MEnt_OnParBoundary((MEntity_ptr)p)); h = mixi(h, (int)MEnt_RepType((MEntity_ptr)p)); h = mixi(h, MEnt_IsVolatile((MEntity_ptr)p)); break;
    case 13: { int idx = 0; void* r; long k = 0; while ((r = d == 0 ? (void*)MESH_Next_Vertex(n.m, &idx) : d == 1 ? (void*)MESH_Next_Edge(n.m, &idx) : d == 2 ? (void*)MESH_Next_Face(n.m, &idx) : (void*)MESH_Next_Region(n.m, &idx))) { h = mixi(h, number(n, r)); if (++k > 40) break; } break; }
    case 14: if (d == 2) { IV ids(MAXPV2 + 2); int nn = 0; MF_VertexIDs(p, 1, 0, &nn, ids.data()); for (int k = 0; k < nn; k++) h = mixi(h, ids[k]); MF_EdgeIDs(p, 1, 0, &nn, ids.data()); for (int k = 0; k < nn; k++) h = mixi(h, ids[k]); }
             else if (d == 3) { IV ids(MAXPV3 + MAXPF3); int nn = 0; MR_VertexIDs(p, &nn, ids.data()); for (int k = 0; k < nn; k++) h = mixi(h, ids[k]); MR_FaceIDs(p, &nn, ids.data()); for (int k = 0; k < nn; k++) h = mixi(h, ids[k]); }
             break;
    default: h = mixi(h, MESH_CheckTopo(n.m)); break;
  }
  return h;
}

CASE(C27, readers, 3) {
  Rng& g = c.rng; GenOpt o; o.size = g.chance(0.2) ? 3 : 2; o.many = g.chance(0.2);
  Model m = gen(g, o); RepType rep = g.chance(0.5) ? F1 : F4;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  add_attributes(c, w.m, g.range(0, 4), true, {MVERTEX, MEDGE, MFACE, MREGION, MALLTYPE});
  for (int i = 0, n = g.range(0, 3); i < n; i++) { MSet_ptr s = MSet_New(w.m, ("set" + std::to_string(i)).c_str(), MALLTYPE); for (int d = 0; d < 4; d++) for (void* p : all_of(w.m, d)) if (g.chance(0.3)) MSet_Add(s, p); }
  int flags = VF_ADJ | VF_COMMON | VF_IDS | VF_COORDS | VF_ORIENT;
  Dump ref = dump_mesh(w.m);
  Net n; n.m = w.m; int k = 0; for (int d = 0; d < 4; d++) for (void* p : (n.e[d] = all_of(w.m, d))) n.no[p] = k++;
  int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(w.m, &i))) n.att.push_back(a); i = 0; MSet_ptr s; while ((s = MESH_Next_MSet(w.m, &i))) n.set.push_back(s);
  std::vector<int> dims; for (int d = 0; d < 4; d++) if (!n.e[d].empty()) dims.push_back(d);
  std::vector<std::vector<std::vector<uint64_t>>> want(NQ, std::vector<std::vector<uint64_t>>(4));      // a single thread's answers
  for (int q = 0; q < NQ; q++) for (int d : dims) for (size_t j = 0; j < n.e[d].size(); j++) { if (q == NQ - 1 && (d || j)) { want[q][d].push_back(0); continue; } want[q][d].push_back(ask(n, q, d, (int)j)); }
  { Ctx t = Ctx(); t.limit = 3; verify(t, w, m, flags); CHECK(c, t.viol.empty(), "single." + (t.viol.empty() ? std::string() : t.viol[0].key), "%s", t.viol.empty() ? "" : t.viol[0].detail.c_str()); }
  int T = g.range(2, 6); std::vector<Ctx> tc(T); Start st(T); std::vector<std::thread> th;
  std::vector<uint64_t> seeds; for (int t = 0; t < T; t++) seeds.push_back(g.next());
  for (int t = 0; t < T; t++) th.emplace_back([&, t]() {
    Ctx& x = tc[t]; Rng r(seeds[t]); x.prop = c.prop; x.limit = 3;
    st.go();
    int rounds = 3;
    for (int u = 0; u < rounds; u++) {
      int what = r.below(6);
      if (what == 0) { verify(x, w, m, flags); x.count("thread_verifications"); }
      else if (what == 1) { same_dump(x, "dump", dump_mesh(w.m), ref); }
      else for (int q = 0; q < 300; q++) { int d = r.pick(dims), j = r.below(n.e[d].size()), Q = r.below(NQ - 1); if (r.chance(0.003)) { Q = NQ - 1; d = 0; j = 0; } uint64_t h = ask(n, Q, d, j); x.count("thread_queries"); CHECK(x, h == want[Q][d][j], "answer." + std::to_string(Q) + "." + std::to_string(d), "query %d of entity %d of dimension %d differs from a single thread's", Q, j, d); shake(r); }
    }
  });
  for (auto& q : th) q.join();
  gather(c, tc, "readers.");
  c.count("threads", T); c.mix(model_hash(m)); c.mix(T * 8 + rep); c.nontrivial = n.e[2].size() > 1; c.note("%s %s: %d threads read %zu entities, %zu attributes, %zu sets", m.kind.c_str(), rep_name(rep), T, n.no.size(), n.att.size(), n.set.size());
  CHECK(c, [&] { Ctx t = Ctx(); same_dump(t, "d", dump_mesh(w.m), ref); return t.viol.empty(); }(), "readers.mesh-changed", "the mesh is not what it was");
  MESH_Delete(w.m);
}

CASE(C27, own_meshes, 2) {
  Rng& g = c.rng;
  static const std::set<std::string> not_here = {"C14", "C27", "C28"};          // netCDF and HDF5 are not thread safe; markers are not in this build
  static const std::set<std::string> not_kind = {"exodus_graph", "generic_refusal", "x3d_read", "x3d_write"};   // the last two change the working directory of the process
  static std::vector<CaseKind> kinds;
  if (kinds.empty()) { for (auto& k : case_kinds()) if (!not_here.count(k.prop) && !not_kind.count(k.name)) kinds.push_back(k); std::sort(kinds.begin(), kinds.end(), [](const CaseKind& a, const CaseKind& b) { int q = strcmp(a.name, b.name); return q ? q < 0 : strcmp(a.prop, b.prop) < 0; });
    kinds.erase(std::unique(kinds.begin(), kinds.end(), [](const CaseKind& a, const CaseKind& b) { return !strcmp(a.name, b.name); }), kinds.end()); }
  { int have = 0; MPI_Init_thread(nullptr, nullptr, MPI_THREAD_MULTIPLE, &have); if (have != MPI_THREAD_MULTIPLE) { c.note("no MPI_THREAD_MULTIPLE"); return; } }
  int T = g.range(2, 4); std::vector<Ctx> tc(T); std::vector<CaseKind> K; Start st(T); std::vector<std::thread> th;
  for (int t = 0; t < T; t++) { K.push_back(t && g.chance(0.4) ? K[0] : g.pick(kinds)); tc[t].rng = Rng(g.next()); tc[t].prop = c.prop; tc[t].limit = 3; c.mixs(K[t].name); c.note("%s", K[t].name); }
  for (int t = 0; t < T; t++) th.emplace_back([&, t]() { st.go(); K[t].fn(tc[t]); });
  for (auto& q : th) q.join();
  for (int t = 0; t < T; t++) { c.mix(tc[t].sig); c.nontrivial |= tc[t].nontrivial; }
  gather(c, tc, "own.");
  c.count("threads", T);
}
