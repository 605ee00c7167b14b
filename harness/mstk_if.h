// Building library meshes from models, reading library meshes back, and the adjacency oracle.
#pragma once
#include "model.h"
#include <mpi.h>
#include "MSTK.h"

typedef std::pair<int,int> EK;
typedef std::vector<void*> PV;

inline const char* rep_name(RepType r) { static const char* n[] = {"F1","F4","R1","R2","R4","?"}; return n[(int)r < 5 ? (int)r : 5]; }

inline PV take(List_ptr l) {                  // list -> vector, list deleted
  PV o;
  if (!l) return o;
  int idx = 0; void* p;
  while ((p = List_Next_Entry(l, &idx))) o.push_back(p);
  List_Delete(l);
  return o;
}

struct MView {
  Mesh_ptr m = nullptr;
  RepType rep = F1;
  PV v;                                        // model vertex -> handle
  std::unordered_map<void*, int> vid;          // handle -> model vertex
  PV f, r;                                     // handles of explicitly created faces / regions (by model index)
  std::unordered_map<void*, int> rid;
  int V(void* p) const { auto it = vid.find(p); return it == vid.end() ? -99 : it->second; }
  EK E(void* e) const { if (!e) return {-98,-98}; int a = V(ME_Vertex(e, 0)), b = V(ME_Vertex(e, 1)); return {std::min(a,b), std::max(a,b)}; }
  IV Fc(void* f, int dir = 1, void* start = nullptr) const { IV o; for (void* p : take(MF_Vertices(f, dir, start))) o.push_back(V(p)); return o; }
  IV F(void* f) const { if (!f) return {-98}; return sorted(Fc(f)); }
  IV Rv(void* r) const { IV o; for (void* p : take(MR_Vertices(r))) o.push_back(V(p)); return o; }
  IV R(void* r) const { if (!r) return {-98}; return sorted(Rv(r)); }
  void setv() { vid.clear(); for (size_t i = 0; i < v.size(); i++) vid[v[i]] = (int)i; }
  // identify all vertices by iteration order
  void index_by_order(Mesh_ptr mesh) {
    m = mesh; rep = MESH_RepType(mesh); v.clear();
    int i = 0; void* p; while ((p = MESH_Next_Vertex(mesh, &i))) v.push_back(p);
    setv();
  }
};

struct BuildOpt {
  int froute = 0;       // 0: MF_Set_Vertices, 1: edges first, then MF_Set_Edges with directions
  int rroute = 0;       // 0: MR_Set_Vertices, 1: faces first, then MR_Set_Faces with directions
  bool classify = true; // set classification given in the model
};

inline BuildOpt rand_build(Rng& g, RepType rep, int dim) {
  BuildOpt b;
  bool full = rep == F1 || rep == F4;
  b.froute = full ? g.below(2) : 0;
  b.rroute = full ? g.below(2) : rep == R4 ? 1 : 0;
  return b;
}

inline void* make_face(MView& w, Rng& g, const IV& fv, const BuildOpt& o, std::map<EK, void*>& edges) {
  void* f = MF_New(w.m);
  int n = (int)fv.size();
  if (o.froute == 0) {
    PV vs; for (int i : fv) vs.push_back(w.v[i]);
    MF_Set_Vertices(f, n, vs.data());
  } else {
    PV es; std::vector<int> dirs;
    for (int i = 0; i < n; i++) {
      int a = fv[i], b = fv[(i + 1) % n];
      EK k(std::min(a, b), std::max(a, b));
      auto it = edges.find(k);
      void* e;
      if (it == edges.end()) {
        e = ME_New(w.m);
        bool flip = g.chance(0.5);
        ME_Set_Vertex(e, 0, w.v[flip ? b : a]); ME_Set_Vertex(e, 1, w.v[flip ? a : b]);
        edges[k] = e;
      } else e = it->second;
      es.push_back(e);
      dirs.push_back(ME_Vertex(e, 0) == w.v[a] ? 1 : 0);
    }
    MF_Set_Edges(f, n, es.data(), dirs.data());
  }
  return f;
}

inline MView build(Rng& g, const Model& m, RepType rep, const BuildOpt& o = BuildOpt()) {
  MView w; w.m = MESH_New(rep); w.rep = rep;
  for (size_t i = 0; i < m.x.size(); i++) {
    void* v = MV_New(w.m);
    double x[3] = {m.x[i][0], m.x[i][1], m.x[i][2]};
    MV_Set_Coords(v, x);
    if (o.classify && i < m.vgdim.size()) { MV_Set_GEntDim(v, m.vgdim[i]); MV_Set_GEntID(v, m.vgid[i]); }
    w.v.push_back(v);
  }
  w.setv();
  std::map<EK, void*> edges;
  std::map<IV, void*> faces;
  for (auto& F : m.f) {
    void* f = make_face(w, g, F.v, o, edges);
    if (o.classify && m.dim == 2) { MF_Set_GEntDim(f, F.gdim); MF_Set_GEntID(f, F.gid); }
    w.f.push_back(f); faces[sorted(F.v)] = f;
  }
  for (size_t i = 0; i < m.r.size(); i++) {
    const MRegM& R = m.r[i];
    void* r = MR_New(w.m);
    if (o.classify) { MR_Set_GEntDim(r, R.gdim); MR_Set_GEntID(r, R.gid); }
    if (o.rroute == 0) {
      if (R.fv.empty()) {
        PV vs; for (int v : R.v) vs.push_back(w.v[v]);
        MR_Set_Vertices(r, (int)vs.size(), vs.data(), 0, nullptr);
      } else {
        IV vs; std::map<int,int> loc;
        for (auto& f : R.fv) for (int v : f) if (!loc.count(v)) { loc[v] = (int)vs.size(); vs.push_back(v); }
        PV vp; for (int v : vs) vp.push_back(w.v[v]);
        std::vector<std::vector<int>> tpl; std::vector<int*> tp;
        for (auto& f : R.fv) { std::vector<int> t = {(int)f.size()}; for (int v : f) t.push_back(loc[v]); tpl.push_back(t); }
        for (auto& t : tpl) tp.push_back(t.data());
        MR_Set_Vertices(r, (int)vp.size(), vp.data(), (int)tp.size(), tp.data());
      }
    } else {
      PV fs; std::vector<int> dirs;
      for (auto& fv : reg_faces(R)) {
        IV k = sorted(fv);
        auto it = faces.find(k);
        void* f;
        if (it == faces.end()) {
          IV q = fv;
          if (g.chance(0.5)) std::reverse(q.begin(), q.end());
          std::rotate(q.begin(), q.begin() + g.below((int)q.size()), q.end());
          f = make_face(w, g, q, o, edges); faces[k] = f;
        } else f = it->second;
        IV have = w.Fc(f);
        fs.push_back(f); dirs.push_back(cyc(have, fv) == 1 ? 1 : 0);
      }
      MR_Set_Faces(r, (int)fs.size(), fs.data(), dirs.data());
    }
    w.r.push_back(r); w.rid[r] = (int)i;
  }
  for (auto& e : m.xe) {
    if (edges.count({std::min(e.first,e.second), std::max(e.first,e.second)})) continue;
    void* ed = ME_New(w.m);
    ME_Set_Vertex(ed, 0, w.v[e.first]); ME_Set_Vertex(ed, 1, w.v[e.second]);
  }
  return w;
}

// read a full representation mesh into a model through its most basic downward queries
inline Model extract(const MView& w) {
  Model m;
  for (void* p : w.v) { double x[3]; MV_Coords(p, x); m.x.push_back({x[0], x[1], x[2]}); m.vgdim.push_back(MV_GEntDim(p)); m.vgid.push_back(MV_GEntID(p)); }
  int i = 0; void* p;
  m.dim = MESH_Num_Regions(w.m) ? 3 : 2;
  std::set<EK> used;
  while ((p = MESH_Next_Face(w.m, &i))) {
    MFaceM F; F.gdim = MF_GEntDim(p); F.gid = MF_GEntID(p);
    List_ptr fe = MF_Edges(p, 1, 0); int n = List_Num_Entries(fe);
    for (int k = 0; k < n; k++) {
      void* e = List_Entry(fe, k);
      F.v.push_back(w.V(ME_Vertex(e, MF_EdgeDir_i(p, k) ? 0 : 1)));
      used.insert(w.E(e));
    }
    List_Delete(fe);
    m.f.push_back(F);
  }
  i = 0;
  while ((p = MESH_Next_Region(w.m, &i))) {
    MRegM R; R.gdim = MR_GEntDim(p); R.gid = MR_GEntID(p); R.type = (int)MR_ElementType(p);
    List_ptr rf = MR_Faces(p); int n = List_Num_Entries(rf);
    for (int k = 0; k < n; k++) {
      void* f = List_Entry(rf, k);
      IV fv = w.Fc(f);
      if (!MR_FaceDir_i(p, k)) std::reverse(fv.begin(), fv.end());
      R.fv.push_back(fv);
    }
    List_Delete(rf);
    m.r.push_back(R);
  }
  i = 0;
  while ((p = MESH_Next_Edge(w.m, &i))) { EK k = w.E(p); if (!used.count(k)) m.xe.push_back(k); }
  return m;
}

template <class K> std::string showk(const std::vector<K>& v);
inline std::string sk(const EK& k) { return "(" + std::to_string(k.first) + "," + std::to_string(k.second) + ")"; }
inline std::string sk(const IV& k) { return show(k); }
inline std::string sk(int k) { return std::to_string(k); }
template <class K> std::string showk(const std::vector<K>& v) {
  std::string s = "{"; size_t n = 0;
  for (auto& k : v) { if (n++ > 12) { s += "..."; break; } s += sk(k); s += " "; }
  return s + "}";
}

template <class K> void cmpset(Ctx& c, const std::string& key, std::vector<K> got, std::vector<K> want, const std::string& what) {
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  c.count("oracle_checks");
  if (got != want) c.fail(key, "%s: got %s want %s", what.c_str(), showk(got).c_str(), showk(want).c_str());
}

// faces sharing two edges (regions sharing two faces) are reported once per shared entity
template <class K> std::vector<K> dedup(std::vector<K> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }

enum { VF_IDS = 1, VF_COORDS = 2, VF_COMMON = 4, VF_ORIENT = 8, VF_FACEORIENT = 16, VF_TEMPLATE = 32, VF_ADJ = 64, VF_SUBSET = 128 };

// The adjacency oracle: every query of mesh w.m must agree with the model.
// Region handles need not be known: regions are identified by their vertex sets.
struct Verifier {
  Ctx& c; const MView& w; const Model& m; const Topo& t; int flags; std::string pre; bool full, volE, volF;
  std::vector<EK> ek; std::vector<IV> fk, rk;
  Verifier(Ctx& c_, const MView& w_, const Model& m_, const Topo& t_, int fl, const std::string& tag = "")
      : c(c_), w(w_), m(m_), t(t_), flags(fl) {
    pre = tag + rep_name(w.rep) + ".";
    full = w.rep == F1 || w.rep == F4;
    volE = !full; volF = (w.rep == R1 || w.rep == R2) && !m.r.empty();
    for (auto& e : t.e) ek.push_back(e);
    for (auto& f : t.f) fk.push_back(sorted(f));
    for (size_t i = 0; i < m.r.size(); i++) rk.push_back(t.rv[i]);
  }
  // queries a representation does not offer (documented, or answered with "not implemented")
  bool on(const char* q) const {
    static const std::set<std::string> off = {
      #include "off.inc"
    };
    if (full) return true;
    return !off.count(std::string(rep_name(w.rep)) + "." + q) && !off.count(std::string("R.") + q) && !(volF && off.count(std::string("V.") + q));
  }
  template <class K> std::vector<K> pickk(const std::vector<K>& all, const IV& idx) { std::vector<K> o; for (int i : idx) o.push_back(all[i]); return o; }
  std::vector<EK> EKs(List_ptr l) { std::vector<EK> o; PV p = take(l); for (void* e : p) o.push_back(w.E(e)); return o; }
  std::vector<IV> FKs(List_ptr l) { std::vector<IV> o; PV p = take(l); for (void* e : p) o.push_back(w.F(e)); return o; }
  std::vector<IV> RKs(List_ptr l) { std::vector<IV> o; PV p = take(l); for (void* e : p) o.push_back(w.R(e)); return o; }
  void num(const std::string& q, int got, size_t want, const std::string& what) {
    c.count("oracle_checks");
    if (got != (int)want) c.fail(pre + q, "%s %s = %d want %zu", q.c_str(), what.c_str(), got, want);
  }
  // ID returning query against list returning query
  template <class G> void ids(const std::string& q, PV list, G fill, const std::string& what) {
    if (!(flags & VF_IDS)) return;
    std::vector<int> buf(list.size() + 64, -7777), want;
    int n = -1; fill(&n, buf.data());
    for (void* p : list) want.push_back(MEnt_ID(p));
    c.count("oracle_checks");
    if (n < 0 || n > (int)list.size() + 60) { c.fail(pre + q, "%s: count %d", what.c_str(), n); return; }
    buf.resize(n);
    std::sort(buf.begin(), buf.end()); std::sort(want.begin(), want.end());
    if (buf != want) c.fail(pre + q, "%s: ids %s want %s", what.c_str(), show(buf).c_str(), show(want).c_str());
  }

  void counts() {
    num("MESH_Num_Vertices", MESH_Num_Vertices(w.m), m.x.size(), "");
    num("MESH_Num_Regions", MESH_Num_Regions(w.m), m.r.size(), "");
    // the manual: edges are never, faces only if explicit, counted and iterated in reduced representations
    std::vector<EK> ce = full ? ek : std::vector<EK>();
    std::vector<IV> cf = volF ? std::vector<IV>() : fk;
    num("MESH_Num_Faces", MESH_Num_Faces(w.m), cf.size(), "");
    num("MESH_Num_Edges", MESH_Num_Edges(w.m), ce.size(), "");
    iter<int>("Vertex", [&](int* i) { return MESH_Next_Vertex(w.m, i); }, [&](int i) { return MESH_Vertex(w.m, i); }, MESH_Num_Vertices(w.m),
         [&](void* p) { return w.V(p); }, [&] { IV a(m.x.size()); std::iota(a.begin(), a.end(), 0); return a; }());
    iter<EK>("Edge", [&](int* i) { return MESH_Next_Edge(w.m, i); }, [&](int i) { return MESH_Edge(w.m, i); }, MESH_Num_Edges(w.m), [&](void* p) { return w.E(p); }, ce);
    iter<IV>("Face", [&](int* i) { return MESH_Next_Face(w.m, i); }, [&](int i) { return MESH_Face(w.m, i); }, MESH_Num_Faces(w.m), [&](void* p) { return w.F(p); }, cf);
    iter<IV>("Region", [&](int* i) { return MESH_Next_Region(w.m, i); }, [&](int i) { return MESH_Region(w.m, i); }, MESH_Num_Regions(w.m), [&](void* p) { return w.R(p); }, rk);
  }
  template <class K, class N, class I, class KF> void iter(const char* what, N next, I entry, int n, KF key, const std::vector<K>& want) {
    std::vector<K> a, b; PV pa, pb;
    int i = 0; void* p; long guard = 0;
    while ((p = next(&i))) { pa.push_back(p); if (++guard > 4 * (long)want.size() + 100) break; }
    for (void* q : pa) a.push_back(key(q));
    cmpset<K>(c, pre + "MESH_Next_" + what, a, want, "iteration");
    for (int k = 0; k < n; k++) { void* q = entry(k); if (!q) { c.fail(pre + "MESH_" + what, "null entry %d of %d", k, n); break; } pb.push_back(q); }
    c.count("oracle_checks");
    if (pa != pb) c.fail(pre + "MESH_" + what, "index access and iteration differ (%zu vs %zu)", pb.size(), pa.size());
  }

  void vertices() {
    for (size_t i = 0; i < m.x.size(); i++) {
      void* v = w.v[i];
      std::string W = "v" + std::to_string(i);
      if (flags & VF_COORDS) {
        double x[3] = {9e9, 9e9, 9e9}; MV_Coords(v, x);
        c.count("oracle_checks");
        if (x[0] != m.x[i][0] || x[1] != m.x[i][1] || x[2] != m.x[i][2]) c.fail(pre + "MV_Coords", "%s: %g %g %g want %g %g %g", W.c_str(), x[0], x[1], x[2], m.x[i][0], m.x[i][1], m.x[i][2]);
      }
      CHECK(c, MEnt_Dim(v) == MVERTEX && MV_Mesh(v) == w.m, pre + "MV_Dim", "%s dim %d", W.c_str(), (int)MEnt_Dim(v));
      if (on("MV_AdjVertices")) { IV g; for (void* p : take(MV_AdjVertices(v))) g.push_back(w.V(p)); cmpset<int>(c, pre + "MV_AdjVertices", g, t.vv[i], W); }
      if (on("MV_Num_AdjVertices")) num("MV_Num_AdjVertices", MV_Num_AdjVertices(v), t.vv[i].size(), W);
      if (on("MV_Edges")) cmpset<EK>(c, pre + "MV_Edges", EKs(MV_Edges(v)), pickk(ek, t.ve[i]), W);
      if (on("MV_Num_Edges")) num("MV_Num_Edges", MV_Num_Edges(v), t.ve[i].size(), W);
      if (on("MV_Faces")) cmpset<IV>(c, pre + "MV_Faces", FKs(MV_Faces(v)), pickk(fk, t.vf[i]), W);
      if (on("MV_Num_Faces")) num("MV_Num_Faces", MV_Num_Faces(v), t.vf[i].size(), W);
      if (on("MV_Regions")) cmpset<IV>(c, pre + "MV_Regions", RKs(MV_Regions(v)), pickk(rk, t.vr[i]), W);
      if (on("MV_Num_Regions")) num("MV_Num_Regions", MV_Num_Regions(v), t.vr[i].size(), W);
      if (full) if (on("MV_EdgeIDs")) ids("MV_EdgeIDs", take(MV_Edges(v)), [&](int* n, int* b) { MV_EdgeIDs(v, n, b); }, W);
      if (!volF) if (on("MV_FaceIDs")) ids("MV_FaceIDs", take(MV_Faces(v)), [&](int* n, int* b) { MV_FaceIDs(v, n, b); }, W);
      if (on("MV_RegionIDs")) ids("MV_RegionIDs", take(MV_Regions(v)), [&](int* n, int* b) { MV_RegionIDs(v, n, b); }, W);
    }
  }

  void edge(void* e, int vlock = 0) {
    EK k = w.E(e);
    std::string W = "e" + sk(k);
    auto it = t.eidx.find(k);
    c.count("oracle_checks");
    if (it == t.eidx.end()) { c.fail(pre + "edge-unknown", "%s is not an edge of the mesh", W.c_str()); return; }
    int i = it->second;
    if (volE) ME_Lock(e);
    CHECK(c, MEnt_Dim(e) == MEDGE && ME_Mesh(e) == w.m, pre + "ME_Dim", "%s dim %d", W.c_str(), (int)MEnt_Dim(e));
    CHECK(c, MEnt_IsVolatile(e) == (volE ? 1 : 0), pre + "ME_IsVolatile", "%s", W.c_str());
    if (on("ME_Faces")) cmpset<IV>(c, pre + "ME_Faces", FKs(ME_Faces(e)), pickk(fk, t.ef[i]), W);
    if (on("ME_Num_Faces")) num("ME_Num_Faces", ME_Num_Faces(e), t.ef[i].size(), W);
    if (on("ME_Regions")) cmpset<IV>(c, pre + "ME_Regions", RKs(ME_Regions(e)), pickk(rk, t.er[i]), W);
    if (on("ME_Num_Regions")) num("ME_Num_Regions", ME_Num_Regions(e), t.er[i].size(), W);
    if (!volF) if (on("ME_FaceIDs")) ids("ME_FaceIDs", take(ME_Faces(e)), [&](int* n, int* b) { ME_FaceIDs(e, n, b); }, W);
    if (on("ME_RegionIDs")) ids("ME_RegionIDs", take(ME_Regions(e)), [&](int* n, int* b) { ME_RegionIDs(e, n, b); }, W);
    void *a = ME_Vertex(e, 0), *b = ME_Vertex(e, 1);
    CHECK(c, ME_OppVertex(e, a) == b && ME_OppVertex(e, b) == a, pre + "ME_OppVertex", "%s", W.c_str());
    CHECK(c, ME_VertexID(e, 0) == MV_ID(a) && ME_VertexID(e, 1) == MV_ID(b), pre + "ME_VertexID", "%s", W.c_str());
    CHECK(c, ME_OppVertexID(e, MV_ID(a)) == MV_ID(b) && ME_OppVertexID(e, MV_ID(b)) == MV_ID(a), pre + "ME_OppVertexID", "%s", W.c_str());
    CHECK(c, ME_UsesEntity(e, a, MVERTEX) && ME_UsesEntity(e, b, MVERTEX), pre + "ME_UsesEntity", "%s own vertices", W.c_str());
    void* o = w.v[c.rng.below((int)w.v.size())];
    CHECK(c, !!ME_UsesEntity(e, o, MVERTEX) == (o == a || o == b), pre + "ME_UsesEntity", "%s other vertex", W.c_str());
    CHECK(c, MEs_AreSame(e, e) == 1, pre + "MEs_AreSame", "%s itself", W.c_str());
    if ((flags & VF_COMMON) && full) {
      void* ce = MVs_CommonEdge(a, b);
      CHECK(c, ce && w.E(ce) == k && MEs_AreSame(ce, e), pre + "MVs_CommonEdge", "%s", W.c_str());
      int p = w.V(a), q = c.rng.below((int)w.v.size());
      if (p != q) {
        void* ce2 = MVs_CommonEdge(w.v[p], w.v[q]);
        CHECK(c, !!ce2 == (t.edge(p, q) >= 0), pre + "MVs_CommonEdge", "vertices %d %d: %s", p, q, ce2 ? "edge" : "none");
      }
    }
    if (volE) ME_UnLock(e);
  }
  void edges() {
    // through iteration in full reps; on demand from vertices otherwise
    if (full) { int i = 0; void* e; PV all; while ((e = MESH_Next_Edge(w.m, &i))) all.push_back(e); for (void* p : all) edge(p); }
    else for (size_t i = 0; i < m.x.size(); i++) {
      int n = (int)t.ve[i].size();
      if (!n) continue;
      int j = c.rng.below(n);
      List_ptr l = MV_Edges(w.v[i]);
      if (!l) continue;
      void* e = List_Entry(l, j < List_Num_Entries(l) ? j : 0);
      List_Delete(l);
      if (e) edge(e);
    }
  }

  void face(void* f) {
    IV cy = w.Fc(f), k = sorted(cy);
    std::string W = "f" + show(cy);
    auto it = t.fidx.find(k);
    c.count("oracle_checks");
    if (it == t.fidx.end()) { c.fail(pre + "face-unknown", "%s is not a face of the mesh", W.c_str()); return; }
    int i = it->second, n = (int)cy.size();
    if (volF) MF_Lock(f);
    int o = cyc(t.f[i], cy);                   // +1 same orientation as model, -1 reversed
    CHECK(c, o != 0, pre + "MF_Vertices.cycle", "%s is not a rotation of %s", W.c_str(), show(t.f[i]).c_str());
    if (flags & VF_FACEORIENT) CHECK(c, o == 1, pre + "MF_Vertices.orient", "%s reversed against %s", W.c_str(), show(t.f[i]).c_str());
    CHECK(c, MEnt_Dim(f) == MFACE && MF_Mesh(f) == w.m, pre + "MF_Dim", "%s", W.c_str());
    CHECK(c, MEnt_IsVolatile(f) == (volF ? 1 : 0), pre + "MF_IsVolatile", "%s", W.c_str());
    if (on("MF_Num_Vertices")) num("MF_Num_Vertices", MF_Num_Vertices(f), n, W);
    if (on("MF_Num_Edges")) num("MF_Num_Edges", MF_Num_Edges(f), n, W);
    MFType et = n == 3 ? TRI : n == 4 ? QUAD : POLYGON;
    CHECK(c, MF_ElementType(f) == et, pre + "MF_ElementType", "%s type %d", W.c_str(), (int)MF_ElementType(f));
    if (on("MF_Edges")) cmpset<EK>(c, pre + "MF_Edges", EKs(MF_Edges(f, 1, 0)), pickk(ek, t.fe[i]), W);
    // rotations, both directions
    if ((flags & VF_ORIENT) && on("MF_orient")) {
      int smax = c.tier ? n : std::min(n, 4);
      for (int q = 0; q < smax; q++) {
        int s = smax == n ? q : c.rng.below(n);
        for (int dir = 0; dir < 2; dir++) {
          IV want;
          for (int j = 0; j < n; j++) want.push_back(cy[(s + (dir ? j : n - j)) % n]);
          IV got = w.Fc(f, dir, w.v[cy[s]]);
          c.count("oracle_checks");
          if (got != want) c.fail(pre + "MF_Vertices.start", "%s dir %d start %d: %s want %s", W.c_str(), dir, cy[s], show(got).c_str(), show(want).c_str());
          // edges: consecutive, beginning with the edge leaving the start vertex in that direction
          PV fe = take(MF_Edges(f, dir, w.v[cy[s]]));
          std::vector<EK> ge, we;
          for (void* e : fe) ge.push_back(w.E(e));
          for (int j = 0; j < n; j++) { int a = want[j], b = want[(j + 1) % n]; we.push_back({std::min(a,b), std::max(a,b)}); }
          c.count("oracle_checks");
          if (ge != we) c.fail(pre + "MF_Edges.start", "%s dir %d start %d: %s want %s", W.c_str(), dir, cy[s], showk(ge).c_str(), showk(we).c_str());
          else for (int j = 0; j < n; j++) {
            int d = MF_EdgeDir(f, fe[j]);
            int wd = (w.V(ME_Vertex(fe[j], 0)) == want[j]) == (dir == 1) ? 1 : 0;
            c.count("oracle_checks");
            if (d != wd) c.fail(pre + "MF_EdgeDir", "%s edge %s: %d want %d", W.c_str(), sk(ge[j]).c_str(), d, wd);
          }
          if (flags & VF_IDS) {
            std::vector<int> b(n + 64, -7777), wv; int nn = -1;
            MF_VertexIDs(f, dir, MV_ID(w.v[cy[s]]), &nn, b.data());
            for (int j : want) wv.push_back(MV_ID(w.v[j]));
            b.resize(std::max(0, std::min(nn, n + 60)));
            c.count("oracle_checks");
            if (b != wv) c.fail(pre + "MF_VertexIDs", "%s dir %d start %d: %s want %s", W.c_str(), dir, cy[s], show(b).c_str(), show(wv).c_str());
            if (full) {
              std::vector<int> be(n + 64, -7777), we2; nn = -1;
              MF_EdgeIDs(f, dir, MV_ID(w.v[cy[s]]), &nn, be.data());
              for (void* e : fe) we2.push_back(ME_ID(e));
              be.resize(std::max(0, std::min(nn, n + 60)));
              c.count("oracle_checks");
              if (be != we2) c.fail(pre + "MF_EdgeIDs", "%s dir %d start %d: %s want %s", W.c_str(), dir, cy[s], show(be).c_str(), show(we2).c_str());
            }
          }
        }
      }
      // default start: same cycle from MF_Edges(f,1,0) in step with EdgeDir_i
      if (full) {
        PV fe = take(MF_Edges(f, 1, 0));
        IV got;
        for (int j = 0; j < (int)fe.size(); j++) got.push_back(w.V(ME_Vertex(fe[j], MF_EdgeDir_i(f, j) ? 0 : 1)));
        c.count("oracle_checks");
        if (got != cy) c.fail(pre + "MF_EdgeDir_i", "%s: cycle by edges %s", W.c_str(), show(got).c_str());
      }
      IV rev = w.Fc(f, 0, nullptr);
      CHECK(c, cyc(cy, rev) == -1, pre + "MF_Vertices.reverse", "%s dir 0 gives %s", W.c_str(), show(rev).c_str());
    }
    // uses
    for (int q = 0; q < 2; q++) {
      int v = q ? c.rng.below((int)w.v.size()) : c.rng.pick(cy);
      CHECK(c, !!MF_UsesEntity(f, w.v[v], MVERTEX) == (std::count(cy.begin(), cy.end(), v) > 0), pre + "MF_UsesVertex", "%s vertex %d", W.c_str(), v);
      int e = q ? c.rng.below((int)t.e.size()) : c.rng.pick(t.fe[i]);
      if ((flags & VF_COMMON) && full) {
        void* ex = MVs_CommonEdge(w.v[t.e[e].first], w.v[t.e[e].second]);
        if (ex) CHECK(c, !!MF_UsesEntity(f, ex, MEDGE) == (std::count(t.fe[i].begin(), t.fe[i].end(), e) > 0), pre + "MF_UsesEdge", "%s edge %s", W.c_str(), sk(t.e[e]).c_str());
      }
    }
    // regions
    if (!m.r.empty()) {
      if (on("MF_Regions")) cmpset<IV>(c, pre + "MF_Regions", RKs(MF_Regions(f)), pickk(rk, t.fr[i]), W);
      if (on("MF_RegionIDs")) ids("MF_RegionIDs", take(MF_Regions(f)), [&](int* n2, int* b) { MF_RegionIDs(f, n2, b); }, W);
      for (int s = 0; s < 2; s++) {
        int want = t.fside[i][o == 1 ? s : 1 - s];
        void* r = MF_Region(f, s);
        c.count("oracle_checks");
        if ((r ? w.R(r) : IV()) != (want >= 0 ? rk[want] : IV())) c.fail(pre + "MF_Region", "%s side %d: %s want %s", W.c_str(), s, r ? sk(w.R(r)).c_str() : "none", want >= 0 ? sk(rk[want]).c_str() : "none");
        CHECK(c, MF_RegionID(f, s) == (r ? MR_ID(r) : 0), pre + "MF_RegionID", "%s side %d: %d", W.c_str(), s, MF_RegionID(f, s));
      }
    }
    if ((flags & VF_ADJ) && m.r.empty() && w.rep == F1) {   // other representations report "not implemented"
      std::vector<IV> af = FKs(MF_AdjFaces(f));
      if (on("MF_Num_AdjFaces")) num("MF_Num_AdjFaces", MF_Num_AdjFaces(f), af.size(), W);
      if (on("MF_AdjFaces")) cmpset<IV>(c, pre + "MF_AdjFaces", dedup(af), pickk(fk, t.ff[i]), W);
    }
    CHECK(c, MFs_AreSame(f, f) == 1, pre + "MFs_AreSame", "%s itself", W.c_str());
    if ((flags & VF_COMMON) && full) {
      PV vs; for (int v : cy) vs.push_back(w.v[v]);
      if (c.rng.chance(0.4)) c.rng.shuffle(vs);          // any order will do, in order is quicker
      void* cf = MVs_CommonFace(n, vs.data());
      c.count("oracle_checks");
      // all vertices of f; another face containing all of them is excluded by construction only for distinct vertex sets
      bool uniq = true;
      for (auto& o2 : t.vf[cy[0]]) if (o2 != i && std::includes(fk[o2].begin(), fk[o2].end(), k.begin(), k.end())) uniq = false;
      if (!cf || (uniq && w.F(cf) != k)) c.fail(pre + "MVs_CommonFace", "%s: %s", W.c_str(), cf ? sk(w.F(cf)).c_str() : "none");
      if (full) {
        PV es = take(MF_Edges(f, 1, 0));
        void* ef = MEs_CommonFace((int)es.size(), es.data());
        CHECK(c, ef == f, pre + "MEs_CommonFace", "%s", W.c_str());
      }
    }
    if (volF) MF_UnLock(f);
  }
  void faces() {
    if (!volF) { int i = 0; void* f; PV all; while ((f = MESH_Next_Face(w.m, &i))) all.push_back(f); for (void* p : all) face(p); }
    else {
      int i = 0; void* r; PV all;
      while ((r = MESH_Next_Region(w.m, &i))) all.push_back(r);
      for (void* p : all) {
        List_ptr l = MR_Faces(p);
        if (!l) { c.fail(pre + "MR_Faces", "null list"); continue; }
        void* f = List_Entry(l, c.rng.below(List_Num_Entries(l)));
        List_Delete(l);
        face(f);
      }
    }
  }

  void region(void* r) {
    IV rv = w.Rv(r), k = sorted(rv);
    std::string W = "r" + show(rv);
    int i = -1;
    for (size_t j = 0; j < rk.size(); j++) if (rk[j] == k) { i = (int)j; break; }
    c.count("oracle_checks");
    if (i < 0) { c.fail(pre + "region-unknown", "%s is not a region of the mesh", W.c_str()); return; }
    const MRegM& R = m.r[i];
    CHECK(c, MEnt_Dim(r) == MREGION && MR_Mesh(r) == w.m, pre + "MR_Dim", "%s", W.c_str());
    CHECK(c, (int)MR_ElementType(r) == R.type, pre + "MR_ElementType", "%s type %d want %d", W.c_str(), (int)MR_ElementType(r), R.type);
    if (on("MR_Num_Vertices")) num("MR_Num_Vertices", MR_Num_Vertices(r), k.size(), W);
    if (on("MR_Num_Edges")) num("MR_Num_Edges", MR_Num_Edges(r), t.re[i].size(), W);
    if (on("MR_Num_Faces")) num("MR_Num_Faces", MR_Num_Faces(r), t.rf[i].size(), W);
    { PV l = take(MR_Vertices(r)); if (on("MR_VertexIDs")) ids("MR_VertexIDs", l, [&](int* n, int* b) { MR_VertexIDs(r, n, b); }, W); }
    if (on("MR_Edges")) cmpset<EK>(c, pre + "MR_Edges", EKs(MR_Edges(r)), pickk(ek, t.re[i]), W);
    if (full) if (on("MR_EdgeIDs")) ids("MR_EdgeIDs", take(MR_Edges(r)), [&](int* n, int* b) { MR_EdgeIDs(r, n, b); }, W);
    std::vector<IV> wf; for (auto& q : t.rf[i]) wf.push_back(fk[q.first]);
    if (on("MR_Faces")) cmpset<IV>(c, pre + "MR_Faces", FKs(MR_Faces(r)), wf, W);
    if (!volF) if (on("MR_FaceIDs")) ids("MR_FaceIDs", take(MR_Faces(r)), [&](int* n, int* b) { MR_FaceIDs(r, n, b); }, W);
    if (on("MR_AdjRegions")) cmpset<IV>(c, pre + "MR_AdjRegions", dedup(RKs(MR_AdjRegions(r))), pickk(rk, t.rr[i]), W);
    if (on("MR_AdjRegionIDs")) ids("MR_AdjRegionIDs", take(MR_AdjRegions(r)), [&](int* n, int* b) { MR_AdjRegionIDs(r, n, b); }, W);
    // face directions against the outward cycles of the model
    {
      PV fs = take(MR_Faces(r));
      if (volF) for (void* f : fs) MF_Lock(f);
      for (size_t j = 0; j < fs.size(); j++) {
        IV cy = w.Fc(fs[j]);
        int fi = t.face(cy); if (fi < 0) continue;
        int out = -1; for (auto& q : t.rf[i]) if (q.first == fi) out = q.second;
        int o = cyc(t.f[fi], cy);
        int want = (o == 1) == (out == 1) ? 1 : 0;
        int d = MR_FaceDir(r, fs[j]);
        CHECK(c, d == want, pre + "MR_FaceDir", "%s face %s: %d want %d", W.c_str(), show(cy).c_str(), d, want);
        d = MR_FaceDir_i(r, (int)j);
        CHECK(c, d == want, pre + "MR_FaceDir_i", "%s face %s: %d want %d", W.c_str(), show(cy).c_str(), d, want);
        CHECK(c, !!MR_UsesEntity(r, fs[j], MFACE), pre + "MR_UsesFace", "%s own face", W.c_str());
      }
      if (volF) for (void* f : fs) MF_UnLock(f);
    }
    for (int q = 0; q < 2; q++) {
      int v = q ? c.rng.below((int)w.v.size()) : c.rng.pick(k);
      CHECK(c, !!MR_UsesEntity(r, w.v[v], MVERTEX) == (std::count(k.begin(), k.end(), v) > 0), pre + "MR_UsesVertex", "%s vertex %d", W.c_str(), v);
      if ((flags & VF_COMMON) && full) {
        int e = q ? c.rng.below((int)t.e.size()) : c.rng.pick(t.re[i]);
        void* ex = MVs_CommonEdge(w.v[t.e[e].first], w.v[t.e[e].second]);
        if (ex) CHECK(c, !!MR_UsesEntity(r, ex, MEDGE) == (std::count(t.re[i].begin(), t.re[i].end(), e) > 0), pre + "MR_UsesEdge", "%s edge %s", W.c_str(), sk(t.e[e]).c_str());
        if (q) {
          int f = c.rng.below((int)t.f.size());
          PV vs; for (int vv : t.f[f]) vs.push_back(w.v[vv]);
          void* fx = MVs_CommonFace((int)vs.size(), vs.data());
          if (fx && w.F(fx) == fk[f]) {
            bool has = false; for (auto& z : t.rf[i]) has |= z.first == f;
            CHECK(c, !!MR_UsesEntity(r, fx, MFACE) == has, pre + "MR_UsesFace", "%s face %s", W.c_str(), show(t.f[f]).c_str());
            if (!has) CHECK(c, MR_FaceDir(r, fx) == -1, pre + "MR_FaceDir.foreign", "%s: %d", W.c_str(), MR_FaceDir(r, fx));
          }
        }
      }
    }
    // template order of standard elements
    if ((flags & VF_TEMPLATE) && R.type >= 1 && R.type <= 4) {
      // the returned order, run through the template, must give exactly the region's faces, outward
      bool ok = (int)rv.size() == std_nv(R.type);
      std::map<IV, IV> outw;
      for (auto& q : t.rf[i]) { IV cy = t.f[q.first]; if (!q.second) std::reverse(cy.begin(), cy.end()); outw[sorted(cy)] = cy; }
      if (ok) for (auto& tf : std_faces(R.type)) {
        IV cy; for (int j : tf) cy.push_back(rv[j]);
        auto it = outw.find(sorted(cy));
        if (it == outw.end() || cyc(it->second, cy) != 1) { ok = false; break; }
      }
      CHECK(c, ok, pre + "MR_Vertices.template", "%s (type %d) is not in template order", W.c_str(), R.type);
    }
  }
  void regions() { int i = 0; void* r; PV all; while ((r = MESH_Next_Region(w.m, &i))) all.push_back(r); for (void* p : all) region(p); }
  void all() { counts(); vertices(); edges(); faces(); regions(); }
};

inline void verify(Ctx& c, const MView& w, const Model& m, int flags, const std::string& tag = "") {
  Topo t = topo(m);
  Verifier v(c, w, m, t, flags, tag);
  v.all();
  c.count("entities", (long)(m.x.size() + t.e.size() + t.f.size() + m.r.size()));
}

// classification of new vertices/elements is left to defaults; a label per element for blocks
inline uint64_t model_hash(const Model& m) {
  uint64_t h = 1469598103934665603ull;
  auto mx = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; };
  for (auto& f : m.f) { mx(77); for (int v : f.v) mx(v); }
  for (auto& r : m.r) { mx(99 + r.type); for (auto& f : reg_faces(r)) for (int v : f) mx(v); }
  return h;
}
