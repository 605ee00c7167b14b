// What every rank holds of a distributed mesh, gathered on rank 0, and the judge of it.
#pragma once
#include "par.h"
extern "C" { int MEnt_OnParBoundary(MEntity_ptr); }
// partitioning to use in place of Metis' (main.cc), and whether it was asked for
extern const IV* g_parts; extern bool g_used;

struct PEnt { int gid, mp, pt, gd, gg, id, inG, inO; IV c, d; V3 x; };
struct Part { std::vector<PEnt> e[4]; IV ghost[4], over[4]; };     // ghost/over: positions of the entities in the lists, in list order

inline PV ents(Mesh_ptr m, int d) {
  PV o; int i = 0; void* p;
  if (d == 0) while ((p = MESH_Next_Vertex(m, &i))) o.push_back(p);
  if (d == 1) while ((p = MESH_Next_Edge(m, &i))) o.push_back(p);
  if (d == 2) while ((p = MESH_Next_Face(m, &i))) o.push_back(p);
  if (d == 3) while ((p = MESH_Next_Region(m, &i))) o.push_back(p);
  return o;
}
inline PV plist(Mesh_ptr m, int d, bool ghost) {
  PV o; int i = 0; void* p;
  if (ghost) { if (d == 0) while ((p = MESH_Next_GhostVertex(m, &i))) o.push_back(p); if (d == 1) while ((p = MESH_Next_GhostEdge(m, &i))) o.push_back(p);
    if (d == 2) while ((p = MESH_Next_GhostFace(m, &i))) o.push_back(p); if (d == 3) while ((p = MESH_Next_GhostRegion(m, &i))) o.push_back(p); }
  else { if (d == 0) while ((p = MESH_Next_OverlapVertex(m, &i))) o.push_back(p); if (d == 1) while ((p = MESH_Next_OverlapEdge(m, &i))) o.push_back(p);
    if (d == 2) while ((p = MESH_Next_OverlapFace(m, &i))) o.push_back(p); if (d == 3) while ((p = MESH_Next_OverlapRegion(m, &i))) o.push_back(p); }
  return o;
}
inline int pnum(Mesh_ptr m, int d, bool ghost) {
  if (ghost) return d == 0 ? MESH_Num_GhostVertices(m) : d == 1 ? MESH_Num_GhostEdges(m) : d == 2 ? MESH_Num_GhostFaces(m) : MESH_Num_GhostRegions(m);
  return d == 0 ? MESH_Num_OverlapVertices(m) : d == 1 ? MESH_Num_OverlapEdges(m) : d == 2 ? MESH_Num_OverlapFaces(m) : MESH_Num_OverlapRegions(m);
}
inline void* pitem(Mesh_ptr m, int d, bool ghost, int i) {
  if (ghost) return d == 0 ? (void*)MESH_GhostVertex(m, i) : d == 1 ? (void*)MESH_GhostEdge(m, i) : d == 2 ? (void*)MESH_GhostFace(m, i) : (void*)MESH_GhostRegion(m, i);
  return d == 0 ? (void*)MESH_OverlapVertex(m, i) : d == 1 ? (void*)MESH_OverlapEdge(m, i) : d == 2 ? (void*)MESH_OverlapFace(m, i) : (void*)MESH_OverlapRegion(m, i);
}

// one rank's part as numbers
inline std::vector<double> pack(Mesh_ptr m, int dim, bool lists = true) {
  std::vector<double> o; std::unordered_map<void*, int> at;
  for (int d = 0; d <= dim; d++) {
    PV es = ents(m, d); o.push_back(es.size());
    for (size_t i = 0; i < es.size(); i++) at[es[i]] = (int)i;
    for (void* p : es) {
      for (int q : {MEnt_GlobalID(p), MEnt_MasterParID(p), (int)MEnt_PType(p), MEnt_GEntDim(p), MEnt_GEntID(p), MEnt_ID(p)}) o.push_back(q);
      if (d == 0) { double x[3]; MV_Coords(p, x); o.insert(o.end(), x, x + 3); }
      if (d == 1) for (int k = 0; k < 2; k++) o.push_back(at.count(ME_Vertex(p, k)) ? at[ME_Vertex(p, k)] : -1);
      if (d == 2) { PV v = take(MF_Vertices(p, 1, 0)); o.push_back(v.size()); for (void* q : v) o.push_back(at.count(q) ? at[q] : -1); }
      if (d == 3) { PV f = take(MR_Faces(p)); o.push_back(f.size()); for (size_t k = 0; k < f.size(); k++) { o.push_back(at.count(f[k]) ? at[f[k]] : -1); o.push_back(MR_FaceDir_i(p, (int)k)); } }
    }
    for (int g = 0; g < 2; g++) { PV l = lists ? plist(m, d, g == 0) : PV(); o.push_back(l.size()); for (void* p : l) o.push_back(at.count(p) ? at[p] : -1); }
  }
  return o;
}
inline Part unpack(const std::vector<double>& v, int dim) {
  Part P; size_t k = 0; auto I = [&]() { return (int)v[k++]; };
  for (int d = 0; d <= dim; d++) {
    int n = I();
    for (int i = 0; i < n; i++) {
      PEnt e; e.gid = I(); e.mp = I(); e.pt = I(); e.gd = I(); e.gg = I(); e.id = I(); e.inG = e.inO = 0;
      if (d == 0) { e.x = {v[k], v[k+1], v[k+2]}; k += 3; }
      if (d == 1) { e.c = {(int)v[k], (int)v[k+1]}; k += 2; }
      if (d == 2) { int q = I(); while (q--) e.c.push_back(I()); }
      if (d == 3) { int q = I(); while (q--) { e.c.push_back(I()); e.d.push_back(I()); } }
      P.e[d].push_back(e);
    }
    for (int g = 0; g < 2; g++) { int q = I(); IV& L = g == 0 ? P.ghost[d] : P.over[d]; while (q--) L.push_back(I()); }
  }
  return P;
}
inline std::vector<Part> collect(const Par& p, Mesh_ptr m, int dim) {
  std::vector<Part> r; for (auto& v : par_gather(p, pack(m, dim))) r.push_back(unpack(v, dim)); return r;
}

// identification of local entities with those of the whole mesh (a Dump): by coordinates, then by vertices
struct Whole {
  const Dump* d; int dim; std::map<V3, int> vx; std::map<IV, int> ek, fk, rk;
  std::vector<IV> rvs;               // region -> sorted vertices
  std::vector<IV> ev;                // element -> vertices
  std::vector<IV> cl[4];             // element -> its edges, faces
  int n(int k) const { return k == 0 ? (int)d->x.size() : k == 1 ? (int)d->e.size() : k == 2 ? (int)d->f.size() : (int)d->rf.size(); }
  const std::vector<Cl>& c(int k) const { return k == 0 ? d->vc : k == 1 ? d->ec : k == 2 ? d->fc : d->rc; }
  Whole(const Dump& D, int dm) : d(&D), dim(dm) {
    for (size_t i = 0; i < D.x.size(); i++) vx[D.x[i]] = (int)i;
    for (size_t i = 0; i < D.e.size(); i++) ek[sorted({D.e[i].first, D.e[i].second})] = (int)i;
    for (size_t i = 0; i < D.f.size(); i++) fk[sorted(D.f[i])] = (int)i;
    for (size_t i = 0; i < D.rf.size(); i++) { std::set<int> s; for (auto& f : D.rf[i]) for (int v : D.f[f.first]) s.insert(v); rvs.emplace_back(s.begin(), s.end()); IV fs; for (auto& f : D.rf[i]) fs.push_back(f.first); rk[sorted(fs)] = (int)i; }
    auto fe = [&](int f) { IV o; const IV& v = D.f[f]; for (size_t k = 0; k < v.size(); k++) o.push_back(ek.at(sorted({v[k], v[(k + 1) % v.size()]}))); return o; };
    if (dim == 2) for (size_t i = 0; i < D.f.size(); i++) { ev.push_back(sorted(D.f[i])); cl[0].push_back(ev.back()); cl[1].push_back(fe((int)i)); cl[2].push_back({(int)i}); }
    else for (size_t i = 0; i < D.rf.size(); i++) { ev.push_back(rvs[i]); cl[0].push_back(ev.back()); std::set<int> es; IV fs; for (auto& f : D.rf[i]) { fs.push_back(f.first); for (int e : fe(f.first)) es.insert(e); } cl[1].emplace_back(es.begin(), es.end()); cl[2].push_back(fs); cl[3].push_back({(int)i}); }
  }
};

// local -> whole, -1 when not part of the whole mesh
struct Ident { IV at[4]; };
struct IdOpt { bool edgedir = true, facedir = true, cls = true; double tol = 0; };
inline Ident identify(Ctx& c, const std::string& k, const Whole& W, const Part& P, int r, const IdOpt& o) {
  Ident I; const Dump& D = *W.d;
  auto V = [&](int q) { return q < 0 || q >= (int)I.at[0].size() ? -1 : I.at[0][q]; };
  for (int d = 0; d <= W.dim; d++) for (size_t i = 0; i < P.e[d].size(); i++) {
    const PEnt& e = P.e[d][i]; int w = -1;
    if (d == 0) { auto it = W.vx.find(e.x); if (it != W.vx.end()) w = it->second; CHECK(c, w >= 0, k + ".vertex", "rank %d vertex %zu (GID %d) at %.17g,%.17g,%.17g is no vertex of the mesh", r, i, e.gid, e.x[0], e.x[1], e.x[2]); }
    if (d == 1) {
      IV v = {V(e.c[0]), V(e.c[1])}; auto it = W.ek.find(sorted(v)); if (it != W.ek.end()) w = it->second;
      CHECK(c, w >= 0, k + ".edge", "rank %d edge %zu (GID %d) between %s is no edge of the mesh", r, i, e.gid, show(v).c_str());
      if (w >= 0 && o.edgedir) CHECK(c, v[0] == D.e[w].first, k + ".edgedir", "rank %d edge %zu runs %s, should run %s", r, i, show(v).c_str(), sk(D.e[w]).c_str());
    }
    if (d == 2) {
      IV v; for (int q : e.c) v.push_back(V(q)); auto it = W.fk.find(sorted(v)); if (it != W.fk.end()) w = it->second;
      int cy = w >= 0 ? cyc(D.f[w], v) : 0;
      if (!cy) w = -1;
      CHECK(c, w >= 0, k + ".face", "rank %d face %zu (GID %d) with vertices %s is no face of the mesh", r, i, e.gid, show(v).c_str());
      if (w >= 0 && (o.facedir || W.dim == 2)) CHECK(c, cy == 1, k + ".facedir", "rank %d face %zu goes round %s, should be %s", r, i, show(v).c_str(), show(D.f[w]).c_str());
    }
    if (d == 3) {
      IV f; for (int q : e.c) f.push_back(q < 0 ? -1 : I.at[2][q]); auto it = W.rk.find(sorted(f)); if (it != W.rk.end()) w = it->second;
      CHECK(c, w >= 0, k + ".region", "rank %d region %zu (GID %d) with faces %s is no region of the mesh", r, i, e.gid, show(f).c_str());
      if (w >= 0 && o.facedir) for (size_t q = 0; q < f.size(); q++) for (auto& x : D.rf[w]) if (x.first == f[q]) CHECK(c, x.second == e.d[q], k + ".regiondir", "rank %d region %zu face %zu has direction %d, should be %d", r, i, q, e.d[q], x.second);
      if (w >= 0 && !o.facedir) for (size_t q = 0; q < f.size(); q++) for (auto& x : D.rf[w]) if (x.first == f[q]) {
        IV v; for (int z : P.e[2][e.c[q]].c) v.push_back(V(z)); int want = cyc(D.f[f[q]], v) == 1 ? x.second : !x.second;
        CHECK(c, want == e.d[q], k + ".regiondir", "rank %d region %zu face %zu has direction %d, should be %d", r, i, q, e.d[q], want);
      }
    }
    I.at[d].push_back(w);
    if (w >= 0 && o.cls) CHECK(c, Cl(e.gd, e.gg) == W.c(d)[w], k + ".classification" , "rank %d entity (%d,%zu) is classified on (%d,%d), should be %s", r, d, i, e.gd, e.gg, sk(W.c(d)[w]).c_str());
  }
  for (int d = 0; d <= W.dim; d++) { std::map<int, int> cnt; for (size_t i = 0; i < I.at[d].size(); i++) if (I.at[d][i] >= 0) { auto p = cnt.insert({I.at[d][i], (int)i}); CHECK(c, p.second, k + ".twice", "rank %d holds entity %d of dimension %d twice (%d and %zu)", r, I.at[d][i], d, p.first->second, i); } }
  return I;
}

// judge of P01, P02, P03.  own: element -> rank that has to own it (-1: any)
inline void judge(Ctx& c, const std::string& k, const std::string& prop, const Whole& W, const std::vector<Part>& ps, int ring, const IV* own, const IdOpt& o) {
  int np = (int)ps.size(), dim = W.dim; bool q1 = prop == "P01", q2 = prop == "P02", q3 = prop == "P03";
  Ctx mute; Ctx& ci = q1 ? c : mute;
  std::vector<Ident> id; for (int r = 0; r < np; r++) id.push_back(identify(ci, k, W, ps[r], r, o));
  if (q1 && c.failed()) return;
  static const char* nm[] = {"vertex", "edge", "face", "region"};
  // owners
  std::vector<IV> owner(4), copies(4);
  for (int d = 0; d <= dim; d++) {
    owner[d].assign(W.n(d), -1); copies[d].assign(W.n(d), 0);
    for (int r = 0; r < np; r++) for (size_t i = 0; i < id[r].at[d].size(); i++) {
      int w = id[r].at[d][i]; if (w < 0) continue; copies[d][w]++;
      if (ps[r].e[d][i].pt == PGHOST) continue;
      if (q1 || q3) CHECK(c, owner[d][w] < 0, k + (d == dim ? ".element-owned-twice" : ".owned-twice"), "%s %d (GID %d) is no ghost on ranks %d and %d", nm[d], w, ps[r].e[d][i].gid, owner[d][w], r);
      owner[d][w] = r;
    }
    for (int w = 0; w < W.n(d); w++) if (q1 || q3) CHECK(c, owner[d][w] >= 0, k + (d == dim ? ".element-unowned" : ".unowned"), "%s %d is owned by no rank (%d copies)", nm[d], w, copies[d][w]);
  }
  if (c.failed()) return;
  for (int d = 0; d <= dim; d++) for (int w : owner[d]) if (w < 0) return;
  c.count("entities_judged", (long)(owner[0].size() + owner[1].size() + owner[2].size() + owner[3].size()));
  if (q1 && own) for (int e = 0; e < W.n(dim); e++) if ((*own)[e] >= 0) CHECK(c, owner[dim][e] == (*own)[e], k + ".wrong-part", "element %d is on rank %d, the partitioning says %d", e, owner[dim][e], (*own)[e]);
  // exactly the owned elements, the requested layers of ghosts, and what bounds them
  if (q1) {
    std::vector<IV> v2e(W.n(0)); for (int e = 0; e < W.n(dim); e++) for (int v : W.ev[e]) v2e[v].push_back(e);
    for (int r = 0; r < np; r++) {
      std::set<int> have, front, el[4];
      for (int e = 0; e < W.n(dim); e++) if (owner[dim][e] == r) have.insert(e);
      std::set<int> want = have;
      std::set<int> bv; for (int e : have) for (int v : W.ev[e]) bv.insert(v);
      for (int l = 0; l < ring; l++) { std::set<int> add; for (int v : bv) for (int e : v2e[v]) if (!want.count(e)) add.insert(e); for (int e : add) { want.insert(e); for (int v : W.ev[e]) bv.insert(v); } }
      for (int e : want) for (int d = 0; d <= dim; d++) el[d].insert(W.cl[d][e].begin(), W.cl[d][e].end());
      for (int d = dim; d >= 0; d--) {
        std::set<int> got; for (int w : id[r].at[d]) got.insert(w);
        for (int w : el[d]) CHECK(c, got.count(w), k + "." + nm[d] + "-missing", "rank %d of %d lacks %s %d (owner %d)", r, np, nm[d], w, owner[d][w]);
        for (int w : got) CHECK(c, el[d].count(w), k + "." + nm[d] + "-extra", "rank %d of %d holds %s %d (owner %d) which is neither its own nor in %d layer(s)", r, np, nm[d], w, owner[d][w], ring);
      }
      // lower entities are owned by a rank that owns an element they bound
    }
    for (int d = 0; d < dim; d++) { std::vector<std::set<int>> ok(W.n(d)); for (int e = 0; e < W.n(dim); e++) for (int w : W.cl[d][e]) ok[w].insert(owner[dim][e]);
      for (int w = 0; w < W.n(d); w++) CHECK(c, ok[w].count(owner[d][w]), k + ".strange-owner", "%s %d is owned by rank %d, which owns no element it bounds", nm[d], w, owner[d][w]); }
  }
  if (q2) for (int d = 0; d <= dim; d++) {
    std::map<int, int> g2w; IV w2g(W.n(d), 0);
    for (int r = 0; r < np; r++) for (size_t i = 0; i < id[r].at[d].size(); i++) {
      int w = id[r].at[d][i], g = ps[r].e[d][i].gid; if (w < 0) continue;
      CHECK(c, g > 0, k + ".gid-positive", "rank %d %s %zu has global ID %d", r, nm[d], i, g);
      CHECK(c, !w2g[w] || w2g[w] == g, k + ".gid-differs", "%s %d has global ID %d on rank %d and %d elsewhere", nm[d], w, g, r, w2g[w]); w2g[w] = g;
      auto p = g2w.insert({g, w}); CHECK(c, p.first->second == w, k + ".gid-shared", "%ss %d and %d share global ID %d (rank %d)", nm[d], w, p.first->second, g, r);
    }
    CHECK(c, g2w.empty() || (g2w.begin()->first == 1 && g2w.rbegin()->first == W.n(d)), k + ".gid-range", "global IDs of %d %ss span %d..%d", W.n(d), nm[d], g2w.begin()->first, g2w.rbegin()->first);
  }
  if (q3) for (int d = 0; d <= dim; d++) for (int r = 0; r < np; r++) {
    std::set<int> G, O;
    for (size_t i = 0; i < id[r].at[d].size(); i++) {
      int w = id[r].at[d][i]; if (w < 0) continue; const PEnt& e = ps[r].e[d][i];
      CHECK(c, e.mp == owner[d][w], k + ".master", "rank %d %s %zu (GID %d) has master %d, its owner is %d", r, nm[d], i, e.gid, e.mp, owner[d][w]);
      int want = owner[d][w] != r ? PGHOST : copies[d][w] > 1 ? POVERLAP : PINTERIOR;
      CHECK(c, e.pt == want, k + ".ptype-" + nm[d], "rank %d %s %zu (GID %d), %d copies, owner %d, has type %d, should be %d", r, nm[d], i, e.gid, copies[d][w], owner[d][w], e.pt, want);
      if (e.pt == PGHOST) G.insert((int)i);
      if (e.pt == POVERLAP) O.insert((int)i);
    }
    for (int t = 0; t < 2; t++) {
      const IV& l = t ? ps[r].over[d] : ps[r].ghost[d]; const std::set<int>& S = t ? O : G; const char* ln = t ? "overlap" : "ghost";
      std::set<int> s(l.begin(), l.end());
      CHECK(c, s == S && s.size() == l.size(), k + "." + ln + "-list-" + nm[d], "rank %d %s list of %ss has %zu entries (%zu different), there are %zu", r, ln, nm[d], l.size(), s.size(), S.size());
      for (size_t i = 1; i < l.size(); i++) if (l[i] >= 0 && l[i-1] >= 0) CHECK(c, ps[r].e[d][l[i-1]].gid < ps[r].e[d][l[i]].gid, k + "." + ln + "-order-" + nm[d], "rank %d %s list of %ss is not in order of global IDs", r, ln, nm[d]);
    }
  }
}

// checks every rank makes on its own part: counts, indexed access, lookup by global ID
inline void judge_local(Ctx& c, const std::string& k, const std::string& prop, Mesh_ptr m, int dim, int rank) {
  if (prop == "P03") for (int d = 0; d <= dim; d++) for (int t = 0; t < 2; t++) {
    PV l = plist(m, d, t == 0);
    CHECK(c, pnum(m, d, t == 0) == (int)l.size(), k + ".list-count", "rank %d counts %d %s entities of dimension %d, list has %zu", rank, pnum(m, d, t == 0), t ? "overlap" : "ghost", d, l.size());
    for (size_t i = 0; i < l.size(); i++) CHECK(c, pitem(m, d, t == 0, (int)i) == l[i], k + ".list-index", "rank %d %s entity %zu of dimension %d differs from the iteration's", rank, t ? "overlap" : "ghost", i, d);
  }
  if (prop == "P02") {
    MESH_Enable_GlobalIDSearch(m);
    for (int d = 0; d <= dim; d++) { int mx = 0; std::set<int> have;
      for (void* p : ents(m, d)) { int g = MEnt_GlobalID(p); mx = std::max(mx, g); have.insert(g);
        void* a = d == 0 ? (void*)MESH_VertexFromGlobalID(m, g) : d == 1 ? (void*)MESH_EdgeFromGlobalID(m, g) : d == 2 ? (void*)MESH_FaceFromGlobalID(m, g) : (void*)MESH_RegionFromGlobalID(m, g);
        CHECK(c, a == p, k + ".gid-lookup", "rank %d: lookup of global ID %d of dimension %d gives %s", rank, g, d, a ? "another entity" : "nothing");
        CHECK(c, MESH_EntityFromGlobalID(m, (MType)d, g) == p, k + ".gid-lookup-entity", "rank %d: generic lookup of global ID %d of dimension %d", rank, g, d); }
      for (int g = 1; g <= mx + 2; g++) if (!have.count(g)) { void* a = d == 0 ? (void*)MESH_VertexFromGlobalID(m, g) : d == 1 ? (void*)MESH_EdgeFromGlobalID(m, g) : d == 2 ? (void*)MESH_FaceFromGlobalID(m, g) : (void*)MESH_RegionFromGlobalID(m, g);
        CHECK(c, !a, k + ".gid-lookup-absent", "rank %d: lookup of absent global ID %d of dimension %d gives entity with GID %d", rank, g, d, MEnt_GlobalID(a)); }
    }
    MESH_Disable_GlobalIDSearch(m);
  }
}

// ---------------------------------------------------------------- inputs
// a model whose vertices are all apart, classified
inline Model par_model(Rng& g, int size = 0) {
  GenOpt o; o.connected = g.chance(0.6); o.manifold = g.chance(0.7); o.size = size;
  Model m = gen(g, o);
  m.xe.clear();
  std::set<V3> s; for (auto& x : m.x) { while (!s.insert(x).second) x[0] += 1e-3 * (1 + g.unit()); }
  return m;
}
// element -> part; every part gets something when there are enough elements
inline IV rand_parts(Rng& g, const Model& m, int np, int& mode) {
  int n = m.dim == 2 ? (int)m.f.size() : (int)m.r.size(); IV p(n, 0);
  mode = g.below(5);
  std::vector<V3> ce; for (int i = 0; i < n; i++) { if (m.dim == 2) ce.push_back(centroid(m, m.f[i].v)); else { IV all; for (auto& f : reg_faces(m.r[i])) all.insert(all.end(), f.begin(), f.end()); ce.push_back(centroid(m, all)); } }
  if (mode == 0) for (int& q : p) q = g.below(np);                                                     // scattered
  else if (mode == 1 || mode == 2) { int ax = g.below(3); IV o(n); std::iota(o.begin(), o.end(), 0); std::sort(o.begin(), o.end(), [&](int a, int b) { return ce[a][ax] < ce[b][ax]; }); for (int i = 0; i < n; i++) p[o[i]] = i * np / n; if (mode == 2) for (int& q : p) if (g.chance(0.1)) q = g.below(np); }
  else if (mode == 3) { std::vector<V3> s; for (int i = 0; i < np; i++) s.push_back(ce[g.below(n)]); for (int i = 0; i < n; i++) { int b = 0; for (int j = 1; j < np; j++) if (norm(ce[i] - s[j]) < norm(ce[i] - s[b])) b = j; p[i] = b; } }
  else { int big = g.below(np); for (int& q : p) q = g.chance(0.8) ? big : g.below(np); }
  std::vector<int> cnt(np, 0); for (int q : p) cnt[q]++;
  for (int r = 0; r < np; r++) if (!cnt[r] && n >= np) { int i; do i = g.below(n); while (cnt[p[i]] < 2); cnt[p[i]]--; p[i] = r; cnt[r]++; }
  return p;
}

// ---------------------------------------------------------------- attributes and sets
inline std::string bcast_str(const Par& p, std::string s) {
  int n = (int)s.size(); PMPI_Bcast(&n, 1, MPI_INT, 0, p.own); s.resize(n); if (n) PMPI_Bcast(&s[0], n, MPI_CHAR, 0, p.own); return s;
}
inline std::vector<std::string> bcast_names(const Par& p, const std::vector<std::string>& v) {
  std::string j; for (auto& s : v) j += s + "\n"; j = bcast_str(p, j);
  std::vector<std::string> o; size_t a = 0; while (a < j.size()) { size_t b = j.find('\n', a); o.push_back(j.substr(a, b - a)); a = b + 1; } return o;
}
// definition of the named attributes and their values on every entity
inline std::vector<double> pack_atts(Mesh_ptr m, int dim, const std::vector<std::string>& names) {
  std::vector<double> o;
  for (auto& n : names) {
    MAttrib_ptr a = MESH_AttribByName(m, n.c_str()); o.push_back(a ? 1 : 0); if (!a) continue;
    int t = MAttrib_Get_Type(a), ed = MAttrib_Get_EntDim(a), nc = MAttrib_Get_NumComps(a);
    o.push_back(t); o.push_back(ed); o.push_back(nc);
    for (int d = 0; d <= dim; d++) if (ed == MALLTYPE || ed == d) for (void* e : ents(m, d)) {
      int iv = 0; double dv = 0; void* pv = nullptr; int has = MEnt_Get_AttVal(e, a, &iv, &dv, &pv);
      if (!has || t == POINTER) { o.push_back(0); continue; }
      if (t == INT) { o.push_back(1); o.push_back(iv); } else if (t == DOUBLE) { o.push_back(1); o.push_back(dv); }
      else if (!pv) o.push_back(0); else { o.push_back(nc); for (int k = 0; k < nc; k++) o.push_back(((double*)pv)[k]); }
    }
  }
  return o;
}
struct PAtt { int there = 0, type = 0, ed = 0, nc = 0; std::vector<std::vector<double>> val[4]; };
inline std::vector<PAtt> unpack_atts(const std::vector<double>& v, const Part& P, int dim, size_t nn) {
  std::vector<PAtt> r; size_t k = 0;
  for (size_t i = 0; i < nn; i++) {
    PAtt a; a.there = (int)v[k++];
    if (a.there) { a.type = (int)v[k++]; a.ed = (int)v[k++]; a.nc = (int)v[k++];
      for (int d = 0; d <= dim; d++) if (a.ed == MALLTYPE || a.ed == d) for (size_t q = 0; q < P.e[d].size(); q++) { int c = (int)v[k++]; a.val[d].emplace_back(v.begin() + k, v.begin() + k + c); k += c; } }
    r.push_back(a);
  }
  return r;
}
inline std::vector<double> pack_sets(Mesh_ptr m, int dim, const std::vector<std::string>& names) {
  std::vector<double> o; std::unordered_map<void*, std::pair<int,int>> at;
  for (int d = 0; d <= dim; d++) { PV es = ents(m, d); for (size_t i = 0; i < es.size(); i++) at[es[i]] = {d, (int)i}; }
  for (auto& n : names) {
    MSet_ptr s = MESH_MSetByName(m, n.c_str()); o.push_back(s ? 1 : 0); if (!s) continue;
    o.push_back(MSet_EntDim(s)); size_t at0 = o.size(); o.push_back(0); int k = 0; void* e;
    while ((e = MSet_Next_Entry(s, &k))) { auto it = at.find(e); auto q = it == at.end() ? std::make_pair(-1, -1) : it->second; o.push_back(q.first); o.push_back(q.second); o[at0]++; }
  }
  return o;
}
