// C10 splits, C11 merges and collapses, C12 joins and swaps: every operator has a counterpart on a plain snapshot of the mesh.
#include "mstk_if.h"

typedef std::pair<int,int> Cl;                       // classification: dimension, id
struct SF { IV cy; Cl cl; };
struct SR { std::map<IV, IV> f; Cl cl; };            // face key -> outward cycle
struct Snap {
  std::map<int, std::pair<V3, Cl>> v;
  std::map<EK, Cl> e;
  std::map<IV, SF> f;
  std::map<std::vector<IV>, SR> r;
};
static EK ek(int a, int b) { return {std::min(a,b), std::max(a,b)}; }
static std::vector<IV> rkey(const SR& R) { std::vector<IV> k; for (auto& q : R.f) k.push_back(q.first); return k; }
static IV rev(IV v) { std::reverse(v.begin(), v.end()); return v; }

struct Mod {
  Ctx& c; MView w; Snap s;
  bool dup = false;
  Mod(Ctx& c_, MView w_) : c(c_), w(w_) { s = read(); }
  int addv(void* h) { w.v.push_back(h); w.vid[h] = (int)w.v.size() - 1; return (int)w.v.size() - 1; }
  void forgetv(int i) { w.vid.erase(w.v[i]); w.v[i] = nullptr; }
  Snap read() {
    Snap o; int i = 0; void* p; dup = false;
    while ((p = MESH_Next_Vertex(w.m, &i))) { int k = w.V(p); if (k < 0) k = addv(p); double x[3]; MV_Coords(p, x); o.v[k] = {{x[0],x[1],x[2]}, {MV_GEntDim(p), MV_GEntID(p)}}; }
    i = 0; while ((p = MESH_Next_Edge(w.m, &i))) { EK k = w.E(p); if (o.e.count(k)) dup = true; o.e[k] = {ME_GEntDim(p), ME_GEntID(p)}; }
    i = 0; while ((p = MESH_Next_Face(w.m, &i))) {
      SF F; F.cl = {MF_GEntDim(p), MF_GEntID(p)};
      List_ptr fe = MF_Edges(p, 1, 0); int n = List_Num_Entries(fe);
      for (int k = 0; k < n; k++) F.cy.push_back(w.V(ME_Vertex(List_Entry(fe, k), MF_EdgeDir_i(p, k) ? 0 : 1)));
      List_Delete(fe);
      if (o.f.count(sorted(F.cy))) dup = true;
      o.f[sorted(F.cy)] = F;
    }
    i = 0; while ((p = MESH_Next_Region(w.m, &i))) {
      SR R; R.cl = {MR_GEntDim(p), MR_GEntID(p)};
      List_ptr rf = MR_Faces(p); int n = List_Num_Entries(rf);
      for (int k = 0; k < n; k++) { IV cy = w.Fc(List_Entry(rf, k)); if (!MR_FaceDir_i(p, k)) cy = rev(cy); R.f[sorted(cy)] = cy; }
      List_Delete(rf);
      if (o.r.count(rkey(R))) dup = true;
      o.r[rkey(R)] = R;
    }
    return o;
  }
  // classification is compared for vertices, edges and faces mentioned in 'cls' only if all is false
  void same(const Snap& a, const Snap& b, const std::string& op) {       // a got, b wanted
    CHECK(c, !dup, op + ".duplicate", "two entities with the same vertices");
    auto keys = [&](auto& x, auto& y, const char* what) {
      std::string ex, mi; int n = 0;
      for (auto& q : x) if (!y.count(q.first)) { if (n++ < 4) ex += kk(q.first) + " "; }
      n = 0; for (auto& q : y) if (!x.count(q.first)) { if (n++ < 4) mi += kk(q.first) + " "; }
      CHECK(c, ex.empty() && mi.empty(), op + "." + what, "unexpected: %s missing: %s", ex.c_str(), mi.c_str());
      return ex.empty() && mi.empty();
    };
    bool ok = keys(a.v, b.v, "vertices") & keys(a.e, b.e, "edges") & keys(a.f, b.f, "faces") & keys(a.r, b.r, "regions");
    if (!ok) return;
    for (auto& q : b.v) { auto& g = a.v.at(q.first);
      CHECK(c, norm(g.first - q.second.first) <= 1e-12 * (1 + norm(q.second.first)), op + ".coords", "vertex %d at %g %g %g, should be at %g %g %g", q.first, g.first[0], g.first[1], g.first[2], q.second.first[0], q.second.first[1], q.second.first[2]);
      if (q.second.second.first >= 0) CHECK(c, g.second == q.second.second, op + ".vclass", "vertex %d classified %s, should be %s", q.first, sk(g.second).c_str(), sk(q.second.second).c_str()); }
    for (auto& q : b.e) if (q.second.first >= 0) CHECK(c, a.e.at(q.first) == q.second, op + ".eclass", "edge %s classified %s, should be %s", sk(q.first).c_str(), sk(a.e.at(q.first)).c_str(), sk(q.second).c_str());
    for (auto& q : b.f) { auto& g = a.f.at(q.first);
      if (q.second.cl.first >= 0) CHECK(c, g.cl == q.second.cl, op + ".fclass", "face %s classified %s, should be %s", sk(q.first).c_str(), sk(g.cl).c_str(), sk(q.second.cl).c_str());
      if (!q.second.cy.empty()) CHECK(c, cyc(q.second.cy, g.cy) == 1, op + ".forient", "face cycle %s, should be %s", sk(g.cy).c_str(), sk(q.second.cy).c_str()); }
    for (auto& q : b.r) { auto& g = a.r.at(q.first);
      if (q.second.cl.first >= 0) CHECK(c, g.cl == q.second.cl, op + ".rclass", "region classified %s, should be %s", sk(g.cl).c_str(), sk(q.second.cl).c_str());
      for (auto& z : q.second.f) CHECK(c, cyc(z.second, g.f.at(z.first)) == 1, op + ".rorient", "face of region has outward cycle %s, should be %s", sk(g.f.at(z.first)).c_str(), sk(z.second).c_str()); }
  }
  static std::string kk(int i) { return std::to_string(i); }
  static std::string kk(const EK& k) { return sk(k); }
  static std::string kk(const IV& k) { return sk(k); }
  static std::string kk(const std::vector<IV>& k) { std::string o = "<"; for (auto& q : k) o += sk(q); return o + ">"; }
  // replace a face of the snapshot in all regions by others; 'outof' maps the outward cycle to the new outward cycles
  template <class Fn> void sub_face(Snap& n, const IV& key, Fn outof) {
    std::map<std::vector<IV>, SR> nr;
    for (auto& q : n.r) {
      auto it = q.second.f.find(key);
      if (it == q.second.f.end()) { nr.insert(q); continue; }
      SR R = q.second; IV out = it->second; R.f.erase(key);
      for (auto& cy : outof(out)) R.f[sorted(cy)] = cy;
      nr[rkey(R)] = R;
    }
    n.r = nr;
  }
  void full_check(const Snap& want, const std::string& op) {
    MView q; q.m = w.m; q.rep = w.rep; Model m; std::map<int,int> nu;
    for (auto& v : want.v) { nu[v.first] = (int)m.x.size(); m.x.push_back(v.second.first); q.v.push_back(w.v[v.first]); }
    q.setv();
    auto ren = [&](IV v) { for (int& k : v) k = nu[k]; return v; };
    for (auto& f : want.f) { MFaceM F; F.v = ren(f.second.cy.empty() ? f.first : f.second.cy); m.f.push_back(F); if (f.second.cy.empty()) return; }
    std::set<std::set<int>> rvs;
    for (auto& r : want.r) {
      MRegM R; int nt = 0, nq = 0; std::set<int> vs;
      for (auto& z : r.second.f) { R.fv.push_back(ren(z.second)); nt += z.second.size() == 3; nq += z.second.size() == 4; vs.insert(z.second.begin(), z.second.end()); }
      int nf = (int)R.fv.size();
      if (!rvs.insert(vs).second) { c.count("skipped_full_checks"); return; }      // regions are told apart by their vertices
      R.type = nf < 4 ? 0 : nf == 4 && nt == 4 ? T_TET : nf == 5 && nt == 4 && nq == 1 ? T_PYR : nf == 5 && nt == 2 && nq == 3 ? T_PRISM : nf == 6 && nq == 6 ? T_HEX : T_POLY;
      // face sizes alone do not make a standard element: the faces must also share as many vertices as in one
      if (R.type >= T_TET && R.type <= T_HEX) {
        auto shared = [&](const IV& p, const IV& q) { int k = 0; for (int u : p) k += std::count(q.begin(), q.end(), u) > 0; return k; };
        bool ok = true;
        for (auto& p : R.fv) { int opp = 0; for (auto& q : R.fv) if (&p != &q) { int k = shared(p, q); bool t2 = p.size() == 3 && q.size() == 3;
          if (R.type == T_PRISM && t2) ok &= k == 0; else if (R.type == T_PYR && t2 && k == 1) opp++; else if (R.type == T_HEX && k == 0) opp++; else ok &= k == 2; }
          if (R.type == T_HEX || (R.type == T_PYR && p.size() == 3)) ok &= opp == 1; }
        if (!ok) { R.type = T_POLY; c.count("nonstandard_with_standard_sizes"); }
      }
      m.r.push_back(R);
    }
    m.dim = m.r.empty() ? 2 : 3;
    for (auto& e : want.e) m.xe.push_back({nu[e.first.first], nu[e.first.second]});
    verify(c, q, m, VF_COMMON | VF_ORIENT | VF_IDS | VF_TEMPLATE, op + ".");
  }
  void* edge_h(const EK& k) { return MVs_CommonEdge(w.v[k.first], w.v[k.second]); }
  void* face_h(const IV& k) { int i = 0; void* f; while ((f = MESH_Next_Face(w.m, &i))) if (w.F(f) == k) return f; return nullptr; }
  void* reg_h(const std::vector<IV>& k) {
    int i = 0; void* r;
    while ((r = MESH_Next_Region(w.m, &i))) { std::vector<IV> q; for (void* f : take(MR_Faces(r))) q.push_back(w.F(f)); std::sort(q.begin(), q.end()); if (q == k) return r; }
    return nullptr;
  }
  void classify_all() {
    int i = 0; void* p;
    auto g = [&](int d) { return c.rng.range(d, 3); };
    while ((p = MESH_Next_Vertex(w.m, &i))) { MV_Set_GEntDim(p, g(0)); MV_Set_GEntID(p, c.rng.range(1, 9)); }
    i = 0; while ((p = MESH_Next_Edge(w.m, &i))) { ME_Set_GEntDim(p, g(1)); ME_Set_GEntID(p, c.rng.range(1, 9)); }
    i = 0; while ((p = MESH_Next_Face(w.m, &i))) { MF_Set_GEntDim(p, g(2)); MF_Set_GEntID(p, c.rng.range(1, 9)); }
    i = 0; while ((p = MESH_Next_Region(w.m, &i))) { MR_Set_GEntDim(p, 3); MR_Set_GEntID(p, c.rng.range(1, 9)); }
    s = read();
  }
  V3 mid(const EK& k) { return 0.5 * (s.v[k.first].first + s.v[k.second].first); }
  template <class M> typename M::key_type pickkey(const M& m) { auto it = m.begin(); std::advance(it, c.rng.below((int)m.size())); return it->first; }

  // ---- model counterparts
  // put the vertices 'add' (in order a -> b) between a and b in every face
  void ins(Snap& n, int a, int b, const IV& add) {
    std::vector<IV> keys; EK k = ek(a, b);
    for (auto& q : n.f) { const IV& cy = q.second.cy; for (size_t i = 0; i < cy.size(); i++) if (ek(cy[i], cy[(i+1)%cy.size()]) == k) { keys.push_back(q.first); break; } }
    auto put = [&](const IV& cy) { IV o; for (size_t i = 0; i < cy.size(); i++) { o.push_back(cy[i]); int x = cy[i], y = cy[(i+1)%cy.size()]; if (x == a && y == b) o.insert(o.end(), add.begin(), add.end()); else if (x == b && y == a) o.insert(o.end(), add.rbegin(), add.rend()); } return o; };
    for (auto& key : keys) {
      SF F = n.f[key]; n.f.erase(key); F.cy = put(F.cy); n.f[sorted(F.cy)] = F;
      sub_face(n, key, [&](const IV& out) { return std::vector<IV>{put(out)}; });
    }
    Cl cl = n.e[k]; n.e.erase(k);
    int p = a; for (int v : add) { n.e[ek(p, v)] = cl; p = v; } n.e[ek(p, b)] = cl;
  }
};

static size_t facemax(const Snap& s) { size_t m = 0; for (auto& f : s.f) m = std::max(m, f.first.size()); return m; }

static bool op_edge_split(Mod& M, std::string& h) {
  Ctx& c = M.c; Snap want = M.s;
  if (facemax(want) > 18 || want.e.empty()) return false;
  EK k = M.pickkey(want.e); void* e = M.edge_h(k); Cl cl = want.e[k];
  int a = M.w.V(ME_Vertex(e, 0)), b = M.w.V(ME_Vertex(e, 1));
  V3 xa = want.v[a].first, xb = want.v[b].first;
  bool multi = c.rng.chance(0.5); int n = multi ? c.rng.range(1, 4) : 1; bool given = c.rng.chance(0.5);
  std::vector<std::array<double,3>> X(n);
  for (int i = 0; i < n; i++) { double t = given ? (i + 0.2 + 0.6 * c.rng.unit()) / n : (double)(i + 1) / (n + 1); V3 y = xa + t * (xb - xa); X[i] = {y[0], y[1], y[2]}; }
  PV got; void* vn = nullptr;
  if (multi) got = take(ME_MultiSplit(e, n, given ? (double (*)[3])X.data() : nullptr));
  else vn = ME_Split(e, given ? X[0].data() : nullptr);
  // number the new vertices along the edge
  IV add;
  if (multi) {
    CHECK(c, (int)got.size() == n + 1, "ME_MultiSplit.list", "%zu new edges for %d points", got.size(), n);
    if ((int)got.size() != n + 1) return true;
    for (int i = 0; i < n; i++) { void* v = ME_Vertex(got[i], 1); add.push_back(M.w.V(v) >= 0 ? M.w.V(v) : M.addv(v)); }
    std::vector<EK> ge, we; int p = a; for (int v : add) { we.push_back(ek(p, v)); p = v; } we.push_back(ek(p, b));
    for (void* q : got) ge.push_back(M.w.E(q));
    CHECK(c, ge == we, "ME_MultiSplit.order", "new edges %s should be %s", showk(ge).c_str(), showk(we).c_str());
  } else add.push_back(M.w.V(vn) >= 0 ? M.w.V(vn) : M.addv(vn));
  for (int i = 0; i < n; i++) want.v[add[i]] = {{X[i][0], X[i][1], X[i][2]}, cl};
  M.ins(want, a, b, add);
  Snap got2 = M.read(); M.same(got2, want, multi ? "ME_MultiSplit" : "ME_Split"); M.s = got2; if (!c.failed()) M.s = want;
  h += multi ? "m" : "e"; return true;
}
static V3 cen(Mod& M, const IV& f) { V3 x = {0,0,0}; for (int v : f) x = x + M.s.v[v].first; return (1.0 / f.size()) * x; }
static bool op_face_split(Mod& M, std::string& h) {
  Ctx& c = M.c; Snap want = M.s; if (want.f.empty()) return false;
  IV k = M.pickkey(want.f); SF F = want.f[k]; void* f = M.face_h(k); V3 x = cen(M, k); double y[3] = {x[0], x[1], x[2]};
  void* vn = MF_Split(f, y); int v = M.w.V(vn) >= 0 ? M.w.V(vn) : M.addv(vn);
  want.v[v] = {x, F.cl}; want.f.erase(k);
  size_t n = F.cy.size();
  auto tris = [&](const IV& cy) { std::vector<IV> o; for (size_t i = 0; i < n; i++) o.push_back({cy[i], cy[(i+1)%n], v}); return o; };
  for (auto& t : tris(F.cy)) want.f[sorted(t)] = {t, F.cl};
  for (int q : k) want.e[ek(q, v)] = {-1, 0};
  M.sub_face(want, k, tris);
  Snap g = M.read(); M.same(g, want, "MF_Split"); if (!c.failed()) for (int q : k) want.e[ek(q, v)] = g.e[ek(q, v)]; M.s = want;
  h += "f"; return true;
}
// split a face along a diagonal
static bool face_diag(Mod& M, const IV& k, int a, int b) {
  Ctx& c = M.c; Snap want = M.s; SF F = want.f[k]; void* f = M.face_h(k);
  bool had = want.e.count(ek(a, b)) > 0; void* he = had ? M.edge_h(ek(a, b)) : nullptr;
  void* e = MF_Split_with_Edge(f, M.w.v[a], M.w.v[b]);
  if (had) CHECK(c, e == he, "MF_Split_with_Edge.existing", "vertices already share an edge, another one was returned");
  else {
    CHECK(c, e && M.w.E(e) == ek(a, b), "MF_Split_with_Edge.edge", "returned edge is not %s", sk(ek(a, b)).c_str());
    size_t n = F.cy.size();
    auto halves = [&](const IV& cy) { IV p, q; size_t ia = std::find(cy.begin(), cy.end(), a) - cy.begin(); size_t i = ia; while (true) { p.push_back(cy[i % n]); if (cy[i % n] == b) break; i++; } while (true) { q.push_back(cy[i % n]); if (cy[i % n] == a) break; i++; } return std::vector<IV>{p, q}; };
    want.f.erase(k); for (auto& t : halves(F.cy)) want.f[sorted(t)] = {t, F.cl};
    want.e[ek(a, b)] = F.cl; M.sub_face(want, k, halves);
  }
  Snap g = M.read(); M.same(g, want, "MF_Split_with_Edge"); M.s = want; return true;
}
static bool op_face_diag(Mod& M, std::string& h) {
  Ctx& c = M.c; if (M.s.f.empty()) return false;
  IV k = M.pickkey(M.s.f); const IV cy = M.s.f[k].cy; int n = (int)cy.size();
  int i = c.rng.below(n), j = c.rng.below(n); if (i == j) return false;
  bool adj = (i + 1) % n == j || (j + 1) % n == i;
  if (!adj && M.s.e.count(ek(cy[i], cy[j]))) return false;       // would make a degenerate mesh
  if (adj && !c.rng.chance(0.3)) return false;
  h += "d"; return face_diag(M, k, cy[i], cy[j]);
}
// cut a region along a loop of its edges
static bool loop_split(Mod& M, const std::vector<IV>& rk, const IV& loop) {
  Ctx& c = M.c; Snap want = M.s; SR R = want.r[rk]; void* r = M.reg_h(rk);
  PV es; size_t n = loop.size(), st = c.rng.below((int)n); bool bw = c.rng.chance(0.5);
  // fedges[0] is traversed in its own direction: the loop must be listed that way round
  IV lo; for (size_t i = 0; i < n; i++) lo.push_back(loop[(st + (bw ? n - i : i)) % n]);
  void* e0 = M.edge_h(ek(lo[0], lo[1]));
  if (M.w.V(ME_Vertex(e0, 0)) != lo[0]) { IV q; for (size_t i = 0; i < n; i++) q.push_back(lo[(1 + n - i) % n]); lo = q; }
  for (size_t i = 0; i < n; i++) es.push_back(M.edge_h(ek(lo[i], lo[(i + 1) % n])));
  // the two halves: faces reachable without crossing the loop
  std::set<EK> cut; for (size_t i = 0; i < n; i++) cut.insert(ek(lo[i], lo[(i + 1) % n]));
  std::vector<IV> fs = rkey(R); std::vector<int> comp(fs.size(), -1); int nc = 0;
  auto edges = [&](const IV& cy) { std::vector<EK> o; for (size_t i = 0; i < cy.size(); i++) o.push_back(ek(cy[i], cy[(i+1)%cy.size()])); return o; };
  for (size_t i = 0; i < fs.size(); i++) if (comp[i] < 0) {
    std::vector<int> st2 = {(int)i}; comp[i] = nc;
    while (!st2.empty()) { int a = st2.back(); st2.pop_back(); for (auto& e : edges(R.f[fs[a]])) if (!cut.count(e)) for (size_t b = 0; b < fs.size(); b++) if (comp[b] < 0) for (auto& e2 : edges(R.f[fs[b]])) if (e2 == e) { comp[b] = nc; st2.push_back((int)b); break; } }
    nc++;
  }
  if (nc != 2) return false;
  want.r.erase(rk);
  for (int q = 0; q < 2; q++) {
    SR N; N.cl = R.cl; IV nf = lo;
    for (size_t i = 0; i < fs.size(); i++) if (comp[i] == q) N.f[fs[i]] = R.f[fs[i]];
    // outward: opposite to the neighbour across the first loop edge
    for (auto& z : N.f) { const IV& cy = z.second; for (size_t i = 0; i < cy.size(); i++) { if (cy[i] == lo[0] && cy[(i+1)%cy.size()] == lo[1]) nf = rev(lo); } }
    N.f[sorted(lo)] = nf; want.r[rkey(N)] = N;
  }
  void* fn = MR_Split_with_EdgeLoop(r, (int)n, es.data());
  CHECK(c, fn && M.w.F(fn) == sorted(lo), "MR_Split_with_EdgeLoop.face", "returned face is not bounded by the loop");
  want.f[sorted(lo)] = {lo, {3, R.cl.second}};
  Snap g = M.read(); M.same(g, want, "MR_Split_with_EdgeLoop"); M.s = want; return true;
}
// a loop around a region: a closed walk of edges that separates its faces in two parts with at least two faces each and is not a face
static bool op_loop(Mod& M, std::string& h) {
  Ctx& c = M.c; if (M.s.r.empty()) return false;
  auto rk = M.pickkey(M.s.r); SR& R = M.s.r[rk];
  if (rk.size() < 6) return false;
  // grow a connected patch of faces and take its boundary if it is one simple cycle
  std::vector<IV> fs = rkey(R); c.rng.shuffle(fs);
  std::set<IV> patch = {fs[0]}; int want = c.rng.range(2, (int)fs.size() - 2);
  auto edges = [&](const IV& cy) { std::vector<EK> o; for (size_t i = 0; i < cy.size(); i++) o.push_back(ek(cy[i], cy[(i+1)%cy.size()])); return o; };
  for (int it = 0; it < 50 && (int)patch.size() < want; it++) for (auto& f : fs) if (!patch.count(f)) {
    bool t = false; for (auto& p : patch) for (auto& e : edges(R.f[p])) for (auto& e2 : edges(R.f[f])) t |= e == e2;
    if (t) { patch.insert(f); break; }
  }
  std::map<int, int> nx; std::set<EK> inner; std::map<EK, int> cnt;
  for (auto& p : patch) for (auto& e : edges(R.f[p])) cnt[e]++;
  size_t nb = 0;
  for (auto& p : patch) { const IV& cy = R.f[p]; for (size_t i = 0; i < cy.size(); i++) if (cnt[ek(cy[i], cy[(i+1)%cy.size()])] == 1) { nb++; if (nx.count(cy[i])) return false; nx[cy[i]] = cy[(i+1)%cy.size()]; } }
  if (nb < 3 || nb > 20) return false;
  IV loop; int a = nx.begin()->first, b = a; do { loop.push_back(b); if (!nx.count(b)) return false; b = nx[b]; } while (b != a && loop.size() <= nb);
  if (loop.size() != nb || M.s.f.count(sorted(loop))) return false;
  // no chord of the cut may be an edge already there (degenerate only for planar loops, harmless here)
  if (!loop_split(M, rk, loop)) return false;
  h += "l"; return true;
}
static bool op_simplex(Mod& M, std::string& h, bool face) {
  Ctx& c = M.c; Snap want = M.s;
  bool tets = !want.r.empty();
  if (face) {
    IV k = M.pickkey(want.f); SF F = want.f[k]; V3 x = cen(M, k); double y[3] = {x[0], x[1], x[2]};
    void* vn = MF_Split_SimplexMesh(M.face_h(k), y); int v = M.w.V(vn) >= 0 ? M.w.V(vn) : M.addv(vn);
    want.v[v] = {x, F.cl}; want.f.erase(k);
    for (int q : k) want.e[ek(q, v)] = {-1, 0};
    for (size_t i = 0; i < 3; i++) { IV t = {F.cy[i], F.cy[(i+1)%3], v}; want.f[sorted(t)] = {t, F.cl}; }
    std::map<std::vector<IV>, SR> nr;
    for (auto& q : want.r) {
      if (!q.second.f.count(k)) { nr.insert(q); continue; }
      int ap = -1; for (auto& z : q.second.f) for (int u : z.first) if (!std::count(k.begin(), k.end(), u)) ap = u;
      IV out = q.second.f.at(k); want.e[ek(ap, v)] = {-1, 0};
      for (size_t i = 0; i < 3; i++) { int a = out[i], b = out[(i+1)%3]; SR N; N.cl = q.second.cl;
        for (IV t : {IV{a, b, v}, IV{b, a, ap}, IV{v, b, ap}, IV{a, v, ap}}) { N.f[sorted(t)] = t; if (!want.f.count(sorted(t))) want.f[sorted(t)] = {IV(), {-1, 0}}; }
        nr[rkey(N)] = N; }
    }
    want.r = nr; h += "F";
  } else {
    EK k = M.pickkey(want.e); Cl cl = want.e[k]; V3 x = M.mid(k); bool given = c.rng.chance(0.5); double y[3] = {x[0], x[1], x[2]};
    void* vn = ME_Split_SimplexMesh(M.edge_h(k), given ? y : nullptr); int v = M.w.V(vn) >= 0 ? M.w.V(vn) : M.addv(vn);
    want.v[v] = {x, cl}; int a = k.first, b = k.second;
    want.e.erase(k); want.e[ek(a, v)] = cl; want.e[ek(b, v)] = cl;
    auto has = [&](const IV& f) { return std::count(f.begin(), f.end(), a) && std::count(f.begin(), f.end(), b); };
    auto repl = [&](IV cy, int from, int to) { for (int& u : cy) if (u == from) u = to; return cy; };
    std::map<IV, SF> nf;
    for (auto& q : want.f) if (!has(q.first)) nf.insert(q); else {
      for (int u : q.first) if (u != a && u != b) want.e[ek(u, v)] = {-1, 0};
      for (int side : {a, b}) { IV t = repl(q.second.cy, side, v); nf[sorted(t)] = {t, q.second.cl}; }
    }
    want.f = nf;
    std::map<std::vector<IV>, SR> nr;
    for (auto& q : want.r) {
      IV vs; for (auto& z : q.second.f) vs.insert(vs.end(), z.first.begin(), z.first.end());
      if (!has(vs)) { nr.insert(q); continue; }
      for (int side : {a, b}) { SR N; N.cl = q.second.cl; for (auto& z : q.second.f) { IV t = repl(z.second, side, v); N.f[sorted(t)] = t; if (!want.f.count(sorted(t))) want.f[sorted(t)] = {IV(), {-1, 0}}; } nr[rkey(N)] = N; }
    }
    want.r = nr; h += "E";
  }
  (void)tets;
  Snap g = M.read(); M.same(g, want, face ? "MF_Split_SimplexMesh" : "ME_Split_SimplexMesh"); M.s = g; return true;
}

CASE(C10, splits_any, 7) {
  GenOpt o; o.size = c.rng.chance(0.7) ? 2 : 3; o.manifold = !c.rng.chance(0.25);
  Model m = gen(c.rng, o); m.xe.clear();
  RepType rep = F1;
  Mod M(c, build(c.rng, m, rep, rand_build(c.rng, rep, m.dim)));
  M.classify_all();
  std::string h; int n = c.rng.range(1, 7);
  for (int i = 0; i < n && !c.failed(); i++) {
    int op = c.rng.below(10);
    if (op < 4) op_edge_split(M, h); else if (op < 6) op_face_split(M, h); else if (op < 8) op_face_diag(M, h); else op_loop(M, h);
  }
  if (!c.failed()) M.full_check(M.s, "C10");
  c.count("operations", (long)h.size()); c.note("%s: %s", m.kind.c_str(), h.c_str());
  c.nontrivial = !h.empty(); c.mix(model_hash(m)); c.mixs(h);
  MESH_Delete(M.w.m);
}
CASE(C10, splits_simplex, 4) {
  Model m; GenOpt o; o.size = c.rng.chance(0.7) ? 2 : 3; o.manifold = !c.rng.chance(0.25);
  bool two = c.rng.chance(0.4);
  o.standard_only = true;
  do m = two ? gen2(c.rng, o) : gen3(c.rng, o); while (m.kind.compare(0, 3, two ? "tri" : "tet") || std::any_of(m.f.begin(), m.f.end(), [](const MFaceM& f) { return f.v.size() != 3; }));
  m.xe.clear();
  Mod M(c, build(c.rng, m, F1, rand_build(c.rng, F1, m.dim)));
  M.classify_all();
  std::string h; int n = c.rng.range(1, 6);
  for (int i = 0; i < n && !c.failed(); i++) op_simplex(M, h, c.rng.chance(0.4));
  if (!c.failed()) M.full_check(M.s, "C10");
  c.count("operations", (long)h.size()); c.note("%s: %s", m.kind.c_str(), h.c_str());
  c.nontrivial = !h.empty(); c.mix(model_hash(m)); c.mixs(h);
  MESH_Delete(M.w.m);
}

// ------------------------------------------------------------------ C12
static bool op_fjoin(Mod& M, std::string& h) {
  Ctx& c = M.c; Snap want = M.s; if (want.e.empty()) return false;
  EK k = M.pickkey(want.e);
  auto edges = [&](const IV& cy) { std::vector<EK> o; for (size_t i = 0; i < cy.size(); i++) o.push_back(ek(cy[i], cy[(i+1)%cy.size()])); return o; };
  std::vector<IV> fs; for (auto& q : want.f) for (auto& e : edges(q.second.cy)) if (e == k) fs.push_back(q.first);
  // the edge must vanish: exactly these two faces use it
  if (fs.size() != 2) return false;
  c.rng.shuffle(fs);
  SF A = want.f[fs[0]], B = want.f[fs[1]];
  if (A.cl != B.cl || A.cy.size() + B.cy.size() > 18) return false;
  int com = 0; for (int u : A.cy) com += std::count(B.cy.begin(), B.cy.end(), u) > 0;
  if (com != 2) return false;
  // cycles through the common edge
  auto joined = [&](IV p, IV q) {      // p and q oriented alike
    IV o; size_t n = p.size(), m = q.size(), i = 0, j = 0;
    for (size_t t = 0; t < n; t++) if (ek(p[t], p[(t+1)%n]) == k) i = t;
    for (size_t t = 0; t < m; t++) if (ek(q[t], q[(t+1)%m]) == k) j = t;
    if (p[i] == q[j]) return IV();
    for (size_t t = 0; t < n; t++) o.push_back(p[(i + 1 + t) % n]);
    for (size_t t = 2; t < m; t++) o.push_back(q[(j + t) % m]);
    return o;
  };
  IV N = joined(A.cy, B.cy); if (N.empty()) N = joined(A.cy, rev(B.cy));
  // regions must have both or none, on the same side
  std::set<std::vector<IV>> ra, rb; for (auto& q : want.r) { if (q.second.f.count(fs[0])) ra.insert(q.first); if (q.second.f.count(fs[1])) rb.insert(q.first); }
  if (ra != rb) return false;
  if (!ra.empty()) { auto& R = want.r[*ra.begin()]; if (joined(R.f[fs[0]], R.f[fs[1]]).empty()) return false; }
  if (want.f.count(sorted(N))) return false;
  void* f = MFs_Join(M.face_h(fs[0]), M.face_h(fs[1]), M.edge_h(k));
  CHECK(c, f && M.w.F(f) == sorted(N), "MFs_Join.face", "%s", f ? "returned face is not the union" : "no face returned");
  std::map<std::vector<IV>, SR> nr;
  for (auto& q : want.r) if (!ra.count(q.first)) nr.insert(q); else { SR R = q.second; IV J = joined(R.f[fs[0]], R.f[fs[1]]); R.f.erase(fs[0]); R.f.erase(fs[1]); R.f[sorted(J)] = J; nr[rkey(R)] = R; }
  want.r = nr; want.f.erase(fs[0]); want.f.erase(fs[1]); want.f[sorted(N)] = {N, A.cl}; want.e.erase(k);
  Snap g = M.read(); M.same(g, want, "MFs_Join"); M.s = want; h += "j"; return true;
}
static bool op_rjoin(Mod& M, std::string& h, bool back) {
  Ctx& c = M.c; Snap want = M.s; if (want.f.empty()) return false;
  IV k = M.pickkey(want.f); std::vector<std::vector<IV>> rs; for (auto& q : want.r) if (q.second.f.count(k)) rs.push_back(q.first);
  if (rs.size() != 2) return false;
  c.rng.shuffle(rs);
  SR A = want.r[rs[0]], B = want.r[rs[1]];
  if (A.cl.second != B.cl.second) return false;
  std::set<int> va, vb; int com = 0, cf = 0;
  for (auto& z : A.f) va.insert(z.first.begin(), z.first.end());
  for (auto& z : B.f) { vb.insert(z.first.begin(), z.first.end()); cf += A.f.count(z.first) > 0; }
  for (int u : va) com += (int)vb.count(u);
  if (cf != 1 || com != (int)k.size() || A.f.size() + B.f.size() > 40) return false;
  IV loop = want.f[k].cy;
  void* r = MRs_Join(M.reg_h(rs[0]), M.reg_h(rs[1]), c.rng.chance(0.7) ? M.face_h(k) : nullptr);
  SR N = A; N.f.erase(k); for (auto& z : B.f) if (z.first != k) N.f[z.first] = z.second;
  want.r.erase(rs[0]); want.r.erase(rs[1]); want.r[rkey(N)] = N; want.f.erase(k);
  Snap g = M.read(); M.same(g, want, "MRs_Join"); M.s = want; h += "J";
  CHECK(c, r && r == M.reg_h(rkey(N)), "MRs_Join.region", "returned region is not the union");
  if (back && !c.failed() && c.rng.chance(0.3)) if (loop_split(M, rkey(N), loop)) h += "l";
  return true;
}
CASE(C12, joins, 8) {
  GenOpt o; o.size = c.rng.chance(0.6) ? 2 : 3; o.manifold = !c.rng.chance(0.25);
  Model m = gen(c.rng, o); m.xe.clear();
  Mod M(c, build(c.rng, m, F1, rand_build(c.rng, F1, m.dim)));
  if (c.rng.chance(0.3)) M.classify_all();
  else { int i = 0; void* p; while ((p = MESH_Next_Region(M.w.m, &i))) MR_Set_GEntID(p, 1); i = 0; while ((p = MESH_Next_Face(M.w.m, &i))) { MF_Set_GEntDim(p, m.dim == 2 ? 2 : 3); MF_Set_GEntID(p, 5); } M.s = M.read(); }
  std::string h; int n = c.rng.range(1, 8);
  for (int i = 0; i < 6 * n && (int)h.size() < n && !c.failed(); i++) {
    if (m.dim == 2 || c.rng.chance(0.4)) { if (!op_fjoin(M, h) && m.dim == 3 && c.rng.chance(0.3)) op_face_diag(M, h); } else op_rjoin(M, h, true);
  }
  if (!c.failed()) M.full_check(M.s, "C12");
  c.count("operations", (long)h.size()); c.note("%s: %s", m.kind.c_str(), h.c_str());
  c.nontrivial = !h.empty(); c.mix(model_hash(m)); c.mixs(h);
  MESH_Delete(M.w.m);
}
CASE(C12, swap2d, 4) {
  Model m; GenOpt o; o.size = 4; o.standard_only = true; o.manifold = !c.rng.chance(0.2);
  do m = gen2(c.rng, o); while (m.kind.compare(0, 3, "tri") && m.kind.compare(0, 6, "mixed2"));
  Mod M(c, build(c.rng, m, F1, rand_build(c.rng, F1, 2)));
  int i = 0; void* p; bool cls = c.rng.chance(0.8);
  while ((p = MESH_Next_Edge(M.w.m, &i))) { ME_Set_GEntDim(p, cls || c.rng.chance(0.5) ? 2 : 1); ME_Set_GEntID(p, 1); }
  M.s = M.read();
  std::string h; int n = c.rng.range(1, 10);
  for (int t = 0; t < n && !c.failed(); t++) {
    Snap want = M.s; EK k = M.pickkey(want.e); std::vector<IV> fs; std::vector<IV> cy;
    for (auto& q : want.f) for (size_t j = 0; j < q.second.cy.size(); j++) if (ek(q.second.cy[j], q.second.cy[(j+1)%q.second.cy.size()]) == k) { fs.push_back(q.first); cy.push_back(q.second.cy); }
    bool can = want.e[k].first == 2 && fs.size() == 2 && fs[0].size() == 3 && fs[1].size() == 3;
    IV op; for (auto& f : fs) for (int u : f) if (u != k.first && u != k.second) op.push_back(u);
    // inconsistent orientation of the two triangles or an existing opposite edge: outside the operator's domain
    if (can) {
      auto dir = [&](const IV& q) { for (size_t j = 0; j < 3; j++) if (q[j] == k.first && q[(j+1)%3] == k.second) return 1; return 0; };
      if (dir(cy[0]) == dir(cy[1]) || op[0] == op[1] || want.e.count(ek(op[0], op[1]))) continue;
    }
    void *en = nullptr, *fn[2] = {nullptr, nullptr};
    int ok = ME_Swap2D(M.edge_h(k), &en, fn);
    CHECK(c, !!ok == can, "ME_Swap2D.result", "returned %d for %s edge", ok, can ? "a swappable" : "an unswappable");
    if (ok && can) {
      int a = k.first, b = k.second, x = op[0], y = op[1];
      // cy[0] contains a,b,x in some order
      bool ab = false; for (size_t j = 0; j < 3; j++) ab |= cy[0][j] == a && cy[0][(j+1)%3] == b;
      if (!ab) std::swap(a, b);                  // now cy[0] = a b x, cy[1] = b a y
      IV t1 = {x, a, y}, t2 = {x, y, b};
      want.e.erase(k); want.e[ek(x, y)] = {-1, 0}; want.f.erase(fs[0]); want.f.erase(fs[1]);
      want.f[sorted(t1)] = {t1, {-1, 0}}; want.f[sorted(t2)] = {t2, {-1, 0}};
      CHECK(c, M.w.E(en) == ek(x, y), "ME_Swap2D.edge", "new edge %s", sk(M.w.E(en)).c_str());
      std::set<IV> g = {M.w.F(fn[0]), M.w.F(fn[1])}, wf = {sorted(t1), sorted(t2)};
      CHECK(c, g == wf, "ME_Swap2D.faces", "new faces are not the two triangles on the other diagonal");
      CHECK(c, ME_GEntDim(en) == 2 && MF_GEntDim(fn[0]) == 2 && MF_GEntDim(fn[1]) == 2, "ME_Swap2D.class", "new entities are not classified on a model face");
      h += "s";
    } else h += "x";
    Snap g = M.read(); M.same(g, want, "ME_Swap2D"); M.s = g;
  }
  if (!c.failed()) M.full_check(M.s, "C12");
  c.count("operations", (long)h.size()); c.note("%s: %s", m.kind.c_str(), h.c_str());
  c.nontrivial = h.find('s') != std::string::npos; c.mix(model_hash(m)); c.mixs(h);
  MESH_Delete(M.w.m);
}
// requests that do not apply are refused and leave everything as it was
CASE(C12, refusals, 3) {
  GenOpt o; o.size = 2; o.manifold = !c.rng.chance(0.25);
  Model m = gen(c.rng, o); m.xe.clear();
  Mod M(c, build(c.rng, m, F1, rand_build(c.rng, F1, m.dim)));
  bool cls = c.rng.chance(0.4);
  if (cls) M.classify_all();
  else { int i = 0; void* p; while ((p = MESH_Next_Region(M.w.m, &i))) MR_Set_GEntID(p, 1); i = 0; while ((p = MESH_Next_Face(M.w.m, &i))) { MF_Set_GEntDim(p, 2); MF_Set_GEntID(p, 5); } M.s = M.read(); }
  Model om; do { GenOpt q; q.size = 1; om = gen(c.rng, q); } while (om.dim != m.dim); om.xe.clear();
  Mod N(c, build(c.rng, om, F1, rand_build(c.rng, F1, om.dim)));
  const Snap want = M.s;
  auto ekeys = [&](const IV& cy) { std::vector<EK> r; for (size_t i = 0; i < cy.size(); i++) r.push_back(ek(cy[i], cy[(i+1)%cy.size()])); return r; };
  std::string h; int n = c.rng.range(4, 14);
  auto ck = [&](const char* what, void* got) {
    h += what[0]; c.count(("refused_" + std::string(what)).c_str()); CHECK(c, !got, std::string("refused.") + what, "the request was not refused");
    Snap g = M.read(); M.same(g, want, std::string("refused.") + what);
  };
  for (int t = 0; t < n && !c.failed(); t++) {
    int op = c.rng.below(8);
    IV k0 = M.pickkey(want.f), k1 = M.pickkey(want.f);
    const SF &A = want.f.at(k0), &B = want.f.at(k1);
    void *f0 = M.face_h(k0), *f1 = M.face_h(k1);
    auto e0 = ekeys(A.cy), e1 = ekeys(B.cy);
    auto in = [](const std::vector<EK>& v, EK e) { return std::count(v.begin(), v.end(), e) > 0; };
    if (op == 0) { EK e = M.pickkey(want.e); if (k0 != k1 && !(in(e0, e) && in(e1, e))) ck("edge_not_in_both_faces", MFs_Join(f0, f1, M.edge_h(e))); }
    else if (op == 1) { if (k0 != k1 && A.cl != B.cl) for (EK e : e0) if (in(e1, e)) ck("faces_on_different_model_entities", MFs_Join(f0, f1, M.edge_h(e))); }
    else if (op == 2) { void* g = N.face_h(N.pickkey(N.s.f)); MF_Set_GEntDim(g, MF_GEntDim(f0)); MF_Set_GEntID(g, MF_GEntID(f0)); EK e = e0[c.rng.below((int)e0.size())]; bool sw = c.rng.chance(0.5);
      int a = MESH_Num_Faces(N.w.m); ck("faces_of_two_meshes", MFs_Join(sw ? g : f0, sw ? f0 : g, M.edge_h(e))); CHECK(c, a == MESH_Num_Faces(N.w.m), "refused.faces_of_two_meshes.other", "the other mesh was changed"); }
    else if (op <= 4) {           // same model entity, shared edge, but not between the same two regions
      for (auto& q : want.f) { if (q.first == k0 || q.second.cl != A.cl) continue;
        auto e2 = ekeys(q.second.cy);
        for (EK e : e0) if (in(e2, e)) {
          auto dir = [&](const IV& cy) { for (size_t i = 0; i < cy.size(); i++) if (cy[i] == e.first && cy[(i+1)%cy.size()] == e.second) return 1; return 0; };
          bool opp = dir(A.cy) == dir(q.second.cy);
          // region on the side of the normal and behind it, told by the cycle the region sees outwards
          auto side = [&](const SF& F, bool front) { const std::vector<IV>* r = nullptr; for (auto& z : want.r) { auto it = z.second.f.find(sorted(F.cy)); if (it != z.second.f.end() && (cyc(F.cy, it->second) == 1) != front) r = &z.first; } return r; };
          if (side(A, false) != side(q.second, opp) || side(A, true) != side(q.second, !opp)) { ck("faces_between_different_regions", MFs_Join(f0, M.face_h(q.first), M.edge_h(e))); goto done; }
        } }
      done:;
    } else if (!want.r.empty()) {
      auto r0 = M.pickkey(want.r), r1 = M.pickkey(want.r); if (r0 == r1) continue;
      const SR &P = want.r.at(r0), &Q = want.r.at(r1); void *h0 = M.reg_h(r0), *h1 = M.reg_h(r1);
      IV sh; for (auto& z : P.f) if (Q.f.count(z.first)) sh = z.first;
      if (op == 5) { if (P.cl.second != Q.cl.second) ck("regions_in_different_model_regions", MRs_Join(h0, h1, sh.empty() || c.rng.chance(0.3) ? nullptr : M.face_h(sh))); }
      else if (op == 6) { if (P.cl.second == Q.cl.second) { if (!(P.f.count(k0) && Q.f.count(k0))) ck("face_not_in_both_regions", MRs_Join(h0, h1, f0));
                          if (!c.failed() && sh.empty()) ck("regions_without_a_common_face", MRs_Join(h0, h1, nullptr)); } }
      else { void* g = N.reg_h(N.pickkey(N.s.r)); MR_Set_GEntID(g, MR_GEntID(h0)); bool sw = c.rng.chance(0.5); IV k = P.f.begin()->first;
        int a = MESH_Num_Regions(N.w.m); ck("regions_of_two_meshes", MRs_Join(sw ? g : h0, sw ? h0 : g, c.rng.chance(0.5) ? M.face_h(k) : nullptr)); CHECK(c, a == MESH_Num_Regions(N.w.m), "refused.regions_of_two_meshes.other", "the other mesh was changed"); }
    }
  }
  if (!c.failed()) M.full_check(want, "C12");
  c.count("refusals", (long)h.size()); c.note("%s: %s", m.kind.c_str(), h.c_str());
  c.nontrivial = h.size() > 2; c.mix(model_hash(m)); c.mixs(h);
  MESH_Delete(M.w.m); MESH_Delete(N.w.m);
}
#include "mod_merge.inc"
#include "mod_edit.inc"
