// Operations on a mesh that is distributed: a table of what every rank should hold is kept on rank 0 and compared after every operation.
#pragma once
#include "pmesh.h"
extern "C" { void MESH_Set_Prtn(Mesh_ptr, unsigned int, unsigned int); void MESH_Flag_Has_Ghosts_From_Prtn(Mesh_ptr, unsigned int, MType); void MESH_Flag_Has_Overlaps_On_Prtn(Mesh_ptr, unsigned int, MType); int MESH_XchngEdgeFaceAttrib(Mesh_ptr, MAttrib_ptr, MPI_Comm); }

inline uint64_t mixh(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a ^= a >> 31; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; a *= 0x94d049bb133111ebull; return a ^ (a >> 31); }

// a mesh that is distributed, and on rank 0 what of the whole mesh every rank holds
struct DM {
  Model m; Mesh_ptr my = nullptr; Dump D; int dim = 3, ring = 1, np = 1, n_before = 0; RepType rep = F1; bool woven = false, index = true;
  std::vector<Part> ps; std::vector<Ident> id; IV owner[4]; std::vector<std::vector<std::pair<int,int>>> copies[4];   // whole entity -> (rank, position)
  int n(int d) const { return (int)owner[d].size(); }
};
inline void dm_index(const Par& p, DM& M) {
  if (!M.index) return;
  M.ps = collect(p, M.my, M.dim); if (!p.root()) return;
  Whole W(M.D, M.dim); Ctx mute; IdOpt o; o.edgedir = o.facedir = o.cls = false; M.id.clear();
  for (int d = 0; d < 4; d++) { M.owner[d].clear(); M.copies[d].clear(); }
  for (int d = 0; d <= M.dim; d++) { M.owner[d].assign(W.n(d), -1); M.copies[d].resize(W.n(d)); }
  for (int r = 0; r < M.np; r++) { M.id.push_back(identify(mute, "", W, M.ps[r], r, o));
    for (int d = 0; d <= M.dim; d++) for (size_t i = 0; i < M.id[r].at[d].size(); i++) { int w = M.id[r].at[d][i]; if (w < 0) continue; M.copies[d][w].push_back({r, (int)i}); if (M.ps[r].e[d][i].pt != PGHOST) M.owner[d][w] = r; } }
}
// g: same on every rank
inline void dm_distribute(const Par& p, Rng& g, DM& M, const Model& m, int ring) {
  M.m = m; M.dim = m.dim; M.ring = ring; M.np = p.np; M.rep = g.chance(0.7) ? F1 : F4; int mode;
  IV parts = rand_parts(g, m, p.np, mode); BuildOpt bo = rand_build(g, M.rep, m.dim); uint64_t bs = g.next(); bool del = g.chance(0.5);
  Mesh_ptr whole = nullptr; if (p.root()) { Rng b(bs); MView w = build(b, m, M.rep, bo); whole = w.m; Ctx q; q.rng = Rng(bs + 1); classify_random(q, whole); M.D = dump_mesh(whole, false); }
  int dim = p.root() ? m.dim : 0; g_parts = &parts; MSTK_Mesh_Distribute(whole, &M.my, &dim, ring, 0, 0, del, p.comm); g_parts = nullptr;
  if (whole && !del) MESH_Delete(whole);
  dm_index(p, M);
}

// the part of the whole mesh with the given elements; vs: vertices of the part -> of the whole
inline Model sub_model(const Model& m, const IV& elems, IV& vs) {
  Model s; s.dim = m.dim; s.kind = m.kind; std::map<int, int> to;
  auto V = [&](int v) { auto q = to.insert({v, (int)vs.size()}); if (q.second) { vs.push_back(v); s.x.push_back(m.x[v]); } return q.first->second; };
  auto L = [&](IV v) { for (int& q : v) q = V(q); return v; };
  for (int e : elems) if (m.dim == 2) { MFaceM f = m.f[e]; f.v = L(f.v); s.f.push_back(f); } else { MRegM r = m.r[e]; r.v = L(r.v); for (auto& f : r.fv) f = L(f); s.r.push_back(r); }
  return s;
}
// every rank builds its own part; given global IDs (type 1), given neighbours (type 2)
inline int dm_weave(const Par& p, Rng& g, DM& M, const Model& m, int ring, int type, std::vector<int>* gids = nullptr, IV* own = nullptr) {
  M.m = m; M.dim = m.dim; M.ring = ring; M.np = p.np; M.woven = true; M.rep = g.chance(0.7) ? F1 : F4; int mode;
  IV parts = rand_parts(g, m, p.np, mode); uint64_t bs = g.next(), cs = g.next(); BuildOpt bo = rand_build(g, M.rep, m.dim);
  if (p.np > 1 && Rng(bs ^ 0x5e77).chance(0.12)) { int r = (int)((bs >> 20) % p.np); for (int& q : parts) if (q == r) q = (r + 1) % p.np; }   // a rank that has nothing of the mesh
  bool sparse = g.chance(0.3);
  std::vector<IV> el(p.np); for (size_t e = 0; e < parts.size(); e++) el[parts[e]].push_back((int)e);
  for (auto& l : el) g.shuffle(l);
  // numbering of the vertices of the whole mesh
  IV gid(m.x.size()); std::iota(gid.begin(), gid.end(), 1); g.shuffle(gid); if (sparse) for (int& q : gid) q = 3 * q + 7;
  std::map<V3, int> at; for (size_t i = 0; i < m.x.size(); i++) at[m.x[i]] = (int)i;
  // classification by position, the same on every rank
  auto classify = [&](Mesh_ptr w) { for (int d = 0; d <= M.dim; d++) for (void* e : ents(w, d)) {
    std::set<int> v; if (d == 0) { double x[3]; MV_Coords(e, x); v.insert(at[{x[0], x[1], x[2]}]); }
    else { PV vs = d == 1 ? PV{ME_Vertex(e, 0), ME_Vertex(e, 1)} : d == 2 ? take(MF_Vertices(e, 1, 0)) : take(MR_Vertices(e)); for (void* q : vs) { double x[3]; MV_Coords(q, x); v.insert(at[{x[0], x[1], x[2]}]); } }
    uint64_t h = cs + d; for (int q : v) h = mixh(h, q); MEnt_Set_GEntDim(e, d + (int)(h % (4 - d))); MEnt_Set_GEntID(e, 1 + (int)((h >> 8) % 30)); } };
  if (p.root()) { Rng b(bs); BuildOpt q; MView w = build(b, m, F1, q); classify(w.m); M.D = dump_mesh(w.m, false); MESH_Delete(w.m); 
    if (own) { // the partitioning in the order of the elements of the dump
      Whole W(M.D, M.dim); own->assign(W.n(M.dim), -1); std::map<IV, int> of; for (size_t e = 0; e < parts.size(); e++) { std::set<int> s; if (m.dim == 2) s.insert(m.f[e].v.begin(), m.f[e].v.end()); else for (auto& f : reg_faces(m.r[e])) s.insert(f.begin(), f.end()); of[IV(s.begin(), s.end())] = parts[e]; }
      for (int e = 0; e < W.n(M.dim); e++) { IV v; for (int q2 : W.ev[e]) v.push_back(at[M.D.x[q2]]); std::sort(v.begin(), v.end()); auto it = of.find(v); if (it != of.end()) (*own)[e] = it->second; } } }
  IV vs; Model s = sub_model(m, el[p.rank], vs); Rng b(bs + 17 * p.rank); MView w = build(b, s, M.rep, bo); M.my = w.m; classify(M.my);
  std::vector<IV> pv(p.np); for (int r = 0; r < p.np; r++) { IV q; sub_model(m, el[r], q); std::sort(q.begin(), q.end()); pv[r] = q; }
  if (type == 1) for (void* v : ents(M.my, 0)) { double x[3]; MV_Coords(v, x); MV_Set_GlobalID(v, gid[at[{x[0], x[1], x[2]}]]); }
  if (gids) *gids = type == 1 ? gid : IV();
  MESH_Set_Prtn(M.my, p.rank, p.np);
  if (type == 2) { for (int r = 0; r < p.np; r++) if (r != p.rank) { IV c; std::set_intersection(pv[r].begin(), pv[r].end(), pv[p.rank].begin(), pv[p.rank].end(), std::back_inserter(c)); if (c.empty()) continue;
      for (MType t : {MVERTEX, MEDGE, MFACE}) if (t < m.dim) { MESH_Flag_Has_Ghosts_From_Prtn(M.my, r, t); MESH_Flag_Has_Overlaps_On_Prtn(M.my, r, t); } } }
  int ok = MSTK_Weave_DistributedMeshes(M.my, m.dim, ring, type, p.comm);
  dm_index(p, M);
  return ok;
}

// elements taken away after the mesh was distributed: some on every rank that has them, some ghosts only on one; then what is left without
// elements and is a ghost or nobody else's
inline void dm_erase(Ctx& c, const Par& p, uint64_t seed, DM& M) {
  int T = M.dim; long n = 0, o = 0; M.n_before = (int)ents(M.my, T).size();
  auto del = [&](int d, void* e) { switch (d) { case 0: MV_Delete(e, 0); break; case 1: ME_Delete(e, 0); break; case 2: MF_Delete(e, 0); break; default: MR_Delete(e, 0); } };
  auto lists = [&] { std::vector<PV> r; for (int d = 0; d <= T; d++) for (int t = 0; t < 2; t++) r.push_back(plist(M.my, d, t == 0)); return r; };
  auto before = lists(); bool back = (seed >> 1) % 3 == 0; Rng g(seed + 11 + p.rank); PV kept; std::map<int, void*> gone[4];
  if ((seed >> 5) % 2) MESH_Enable_LocalIDSearch(M.my);
  auto find = [&](int d, int id) -> void* { switch (d) { case 0: return MESH_VertexFromID(M.my, id); case 1: return MESH_EdgeFromID(M.my, id); case 2: return MESH_FaceFromID(M.my, id); default: return MESH_RegionFromID(M.my, id); } };
  for (void* e : ents(M.my, T)) { uint64_t h = mixh(seed, MEnt_GlobalID(e)) % 100, q = mixh(mixh(seed + 3, MEnt_GlobalID(e)), p.rank) % 100;
    if (h < 12 || (MEnt_PType(e) == PGHOST && q < 15)) { gone[T][MEnt_ID(e)] = e; if (back) { T == 3 ? MR_Delete(e, 1) : MF_Delete(e, 1); kept.push_back(e); } else del(T, e); n++; } }
  if (!back && seed % 2) for (int d = T - 1; d >= 0; d--) for (void* e : ents(M.my, d)) {
    if (MEnt_PType(e) == POVERLAP) continue;
    List_ptr l = d == 2 ? MF_Regions(e) : d == 1 ? ME_Faces(e) : MV_Edges(e); int u = l ? List_Num_Entries(l) : 0; if (l) List_Delete(l); if (u) continue;
    if (MEnt_PType(e) == PGHOST || !MEnt_OnParBoundary(e)) { gone[d][MEnt_ID(e)] = e; del(d, e); o++; } }
  for (int d = 0; d <= T; d++) { long k = 0; for (void* e : ents(M.my, d)) if (k++ < 30) CHECK(c, find(d, MEnt_ID(e)) == e, "taken-away.from-id", "rank %d: lookup of ID %d of dimension %d does not give the entity that has it", p.rank, MEnt_ID(e), d);
    k = 0; for (auto& q : gone[d]) if (k++ < 10) CHECK(c, !find(d, q.first), "taken-away.from-id-gone", "rank %d: lookup of ID %d of dimension %d gives an entity, the one that had it is deleted", p.rank, q.first, d); }
  if (back) { judge_local(c, "taken-away", "P03", M.my, M.dim, p.rank); g.shuffle(kept); for (void* e : kept) T == 3 ? MR_Restore(e) : MF_Restore(e); c.count("elements put back", (long)kept.size());
    if ((int)ents(M.my, T).size() != (int)M.n_before) c.fail("put-back.count", "rank %d has %zu elements, had %d", p.rank, ents(M.my, T).size(), M.n_before);
    auto after = lists(); for (size_t i = 0; i < after.size(); i++) CHECK(c, after[i] == before[i], "put-back.list", "rank %d: the %s list of dimension %zu is not what it was: %zu entities, had %zu", p.rank, i % 2 ? "overlap" : "ghost", i / 2, after[i].size(), before[i].size());
    for (auto& q : gone[T]) CHECK(c, find(T, q.first) == q.second, "put-back.from-id", "rank %d: lookup of ID %d of dimension %d does not give the element that was put back", p.rank, q.first, T); }
  c.count("elements taken away", n); c.count("other entities taken away", o);
  judge_local(c, "taken-away", "P03", M.my, M.dim, p.rank);
  dm_index(p, M);
}

// ---------------------------------------------------------------- the table and the operations
struct OAt { std::string name; MAttType type; MType dim; int nc; MAttrib_ptr a; bool judged() const { return type != POINTER; } };
struct Ops {
  Ctx& c; Par& p; DM& M; Rng& g; uint64_t seed; int round = 0; std::vector<OAt> A; std::string k;
  std::vector<std::vector<std::vector<std::vector<double>>>> st[4];     // [dim][attribute][rank][position] -> value; rank 0 only
  std::vector<std::vector<V3>> xy;                                        // [rank][vertex]
  std::vector<IV> gid[4];                                                  // not used by judges of values
  Ops(Ctx& c_, Par& p_, DM& M_, Rng& g_) : c(c_), p(p_), M(M_), g(g_), seed(g_.next()) {
    if (p.root()) for (int r = 0; r < p.np; r++) { xy.emplace_back(); for (auto& e : M.ps[r].e[0]) xy[r].push_back(e.x); }
  }
  bool on(int a, int d) const { return A[a].dim == MALLTYPE || (int)A[a].dim == d; }
  void add_atts(int n, bool codim1 = false) {
    static const MAttType T[] = {INT, DOUBLE, VECTOR, TENSOR, POINTER};
    for (int i = 0; i < n; i++) {
      OAt a; a.type = T[g.chance(0.06) ? 4 : g.below(4)]; a.dim = codim1 && g.chance(0.8) ? (MType)(M.dim - 1) : g.chance(0.07) ? MALLTYPE : (MType)g.below(M.dim + 1);
      a.nc = a.type == VECTOR ? g.range(1, 5) : a.type == TENSOR ? g.pick(IV{1, 3, 6, 9}) : 1; a.name = "op" + std::to_string(A.size()) + std::string(g.below(6), 'z');
      if (g.chance(0.15)) { static const std::vector<std::string> own = {"tmpatt_renumber", "mkatt", "Global2Local", "Local2Global", "temp_gv_id", "ownedatt", "copyatt", "on_parbndry"}; std::string o = g.pick(own); bool taken = false; for (auto& b : A) taken |= b.name == o; if (!taken && !MESH_AttribByName(M.my, o.c_str())) a.name = o; }
      a.a = a.type == VECTOR || a.type == TENSOR ? MAttrib_New(M.my, a.name.c_str(), a.type, a.dim, a.nc) : MAttrib_New(M.my, a.name.c_str(), a.type, a.dim);
      A.push_back(a); if (p.root()) for (int d = 0; d < 4; d++) { st[d].emplace_back(p.np); if (d <= M.dim && on((int)A.size() - 1, d)) for (int r = 0; r < p.np; r++) st[d].back()[r].assign(M.ps[r].e[d].size(), std::vector<double>(a.nc, 0.0)); }
    }
  }
  // new values on some of the copies, different on every rank
  int how(int a, int d, int r, int pos) const { int q = (int)(mixh(mixh(mixh(seed, round * 31 + d), a * 1009 + r), pos) % 20); return q < 11 ? 1 : q < 13 ? 2 : q < 15 ? 3 : 0; }
  double value(int a, int d, int r, int pos, int kk) const { uint64_t h = mixh(mixh(mixh(mixh(seed + 5, round * 31 + d), a * 1009 + r), pos), kk); int q = (int)(h % 801) - 400; if ((h >> 20) % 11 == 0) q = 0; return A[a].type == INT ? q : q * 0.25; }
  void assign() {
    round++;
    for (size_t a = 0; a < A.size(); a++) if (A[a].judged()) for (int d = 0; d <= M.dim; d++) if (on((int)a, d)) {
      PV es = ents(M.my, d); int nc = A[a].nc;
      for (size_t i = 0; i < es.size(); i++) {
        int h = how((int)a, d, p.rank, (int)i); if (!h) continue; void* e = es[i]; MAttrib_ptr at = A[a].a; std::vector<double> v(nc, 0.0); if (h == 1) for (int q = 0; q < nc; q++) v[q] = value((int)a, d, p.rank, (int)i, q);
        if (h == 3) { MEnt_Rem_AttVal(e, at); continue; }
        if (A[a].type == INT) MEnt_Set_AttVal(e, at, (int)v[0], 0.0, nullptr);
        else if (A[a].type == DOUBLE) MEnt_Set_AttVal(e, at, 0, v[0], nullptr);
        else { int iv; double dv; void* pv = nullptr; MEnt_Get_AttVal(e, at, &iv, &dv, &pv); if (pv && i % 2) std::copy(v.begin(), v.end(), (double*)pv); else MEnt_Set_AttVal(e, at, 0, 0.0, v.data()); }
      }
      if (p.root()) for (int r = 0; r < p.np; r++) for (size_t i = 0; i < st[d][a][r].size(); i++) { int h = how((int)a, d, r, (int)i); if (!h) continue; auto& v = st[d][a][r][i]; for (int q = 0; q < nc; q++) v[q] = h == 1 ? value((int)a, d, r, (int)i, q) : 0; }
    }
  }
  typedef std::function<bool(int d, int r, int pos, const std::vector<double>&)> Tol;
  // compare the values of every copy with the table; values that are left open are taken over
  long compare(const std::string& op, const std::function<int(int a, int d, int r, int pos, const std::vector<double>&)>& open = nullptr) {
    std::vector<std::string> nm; for (auto& a : A) nm.push_back(a.name);
    auto G = par_gather(p, pack_atts(M.my, M.dim, nm)); long n = 0; if (!p.root()) return 0;
    for (int r = 0; r < p.np; r++) { auto at = unpack_atts(G[r], M.ps[r], M.dim, nm.size());
      for (size_t a = 0; a < A.size(); a++) { CHECK(c, at[a].there, k + op + ".lost", "rank %d has no attribute %s any more", r, nm[a].c_str()); if (!at[a].there || !A[a].judged()) continue;
        for (int d = 0; d <= M.dim; d++) for (size_t i = 0; i < at[a].val[d].size(); i++) {
          std::vector<double> z = at[a].val[d][i]; z.resize(A[a].nc, 0.0); auto& want = st[d][a][r][i]; n++;
          int o = open ? open((int)a, d, r, (int)i, z) : 0; if (o == 1) { want = z; continue; }
          const char* tp[] = {"INT", "DOUBLE", "POINTER", "VECTOR", "TENSOR"}; (void)tp;
          CHECK(c, z == want, k + op + (M.ps[r].e[d][i].pt == PGHOST ? ".ghost" : ".owner"), "rank %d attribute %s (type %d, %d components) on its %s %zu of dimension %d (GID %d) is %.17g..., should be %.17g...", r, nm[a].c_str(), (int)A[a].type, A[a].nc, M.ps[r].e[d][i].pt == PGHOST ? "ghost" : "entity", i, d, M.ps[r].e[d][i].gid, first_diff(z, want), first_diff(want, z));
          want = z;
        } } }
    c.count("values_compared", n);
    return n;
  }
  static double first_diff(const std::vector<double>& a, const std::vector<double>& b) { for (size_t i = 0; i < a.size(); i++) if (i >= b.size() || a[i] != b[i]) return a[i]; return a.empty() ? 0 : a[0]; }
  void scatter(int a) { if (!p.root()) return; for (int d = 0; d <= M.dim; d++) if ((int)A[a].dim == d) for (int w = 0; w < M.n(d); w++) { int o = M.owner[d][w]; if (o < 0) continue; std::vector<double>* v = nullptr; for (auto& q : M.copies[d][w]) if (q.first == o) v = &st[d][a][o][q.second]; for (auto& q : M.copies[d][w]) if (q.first != o) st[d][a][q.first][q.second] = *v; } }
  bool moves(int a) const { return A[a].judged() && A[a].dim != MALLTYPE; }

  void update() {
    if (A.empty() || g.chance(0.5)) { int ok = MESH_UpdateAttributes(M.my, p.comm); CHECK(c, ok, k + "update.result", "MESH_UpdateAttributes returned %d", ok); for (size_t a = 0; a < A.size(); a++) if (moves((int)a)) scatter((int)a); c.count("updates"); compare("update"); }
    else { int a = g.below((int)A.size()); int ok = MESH_Update1Attribute(M.my, A[a].a, p.comm); if (moves(a)) { CHECK(c, ok, k + "update1.result", "MESH_Update1Attribute returned %d", ok); scatter(a); } c.count("updates"); compare("update1"); }
  }
  void gathscat() {
    std::vector<int> cand; for (size_t a = 0; a < A.size(); a++) if (moves((int)a)) cand.push_back((int)a); if (cand.empty()) return;
    static const MAttOpType T[] = {ATTOP_MAX, ATTOP_MIN, ATTOP_SUM, ATTOP_AVG, ATTOP_UNDEF}; static const char* nm[] = {"max", "min", "sum", "average", "undef"};
    int a = g.pick(cand), t = g.chance(0.1) ? 4 : g.below(4), d = (int)A[a].dim, nc = A[a].nc; if (A[a].type == INT && t == 3) t = 2;
    int ok = MESH_GathScat1Attribute(M.my, A[a].a, T[t], p.comm); std::string op = std::string("gathscat.") + nm[t];
    if (p.np > 1) CHECK(c, ok, k + op + ".result", "MESH_GathScat1Attribute returned %d", ok);
    std::map<int, std::vector<std::vector<double>>> cands; std::map<int, std::vector<double>> took;     // whole entity -> values that are as good
    if (p.root()) for (int w = 0; w < M.n(d); w++) {
      int o = M.owner[d][w]; auto& cp = M.copies[d][w]; if (o < 0 || cp.size() < 2) continue;
      std::vector<std::vector<double>> v; std::vector<double>* mine = nullptr; for (auto& q : cp) if (q.first == o) mine = &st[d][a][o][q.second]; else v.push_back(st[d][a][q.first][q.second]);
      auto nrm = [&](const std::vector<double>& x) { double s = 0; for (double y : x) s += y * y; return s; };
      bool vec = A[a].type == VECTOR || A[a].type == TENSOR; std::vector<double> r = *mine;
      if (t == 4) { cands[w] = v; continue; }
      if (t == 2 || t == 3) { for (auto& x : v) for (int q = 0; q < nc; q++) r[q] += x[q]; if (t == 3) for (double& x : r) x /= (int)v.size() + 1; }
      else if (!vec) { for (auto& x : v) r[0] = t == 0 ? std::max(r[0], x[0]) : std::min(r[0], x[0]); }
      else { double b = nrm(r); v.push_back(r); for (auto& x : v) b = t == 0 ? std::max(b, nrm(x)) : std::min(b, nrm(x)); for (auto& x : v) if (nrm(x) == b) cands[w].push_back(x); continue; }
      for (auto& q : cp) st[d][a][q.first][q.second] = r;
    }
    c.count(op.c_str());
    compare(op, [&](int a2, int d2, int r, int i, const std::vector<double>& z) { if (a2 != a || d2 != d) return 0; int w = M.id[r].at[d][i]; auto it = cands.find(w); if (it == cands.end()) return 0;
      if (std::find(it->second.begin(), it->second.end(), z) == it->second.end()) { st[d][a][r][i] = it->second[0]; return 0; } auto q = took.insert({w, z}); if (q.first->second == z) return 1; st[d][a][r][i] = q.first->second; return 0; });
  }
  void exchange() {
    std::vector<int> cand; for (size_t a = 0; a < A.size(); a++) if (moves((int)a) && (int)A[a].dim == M.dim - 1) cand.push_back((int)a); if (cand.empty()) return;
    int a = g.pick(cand), d = M.dim - 1; int ok = MESH_XchngEdgeFaceAttrib(M.my, A[a].a, p.comm); if (p.np > 1) CHECK(c, ok, k + "exchange.result", "MESH_XchngEdgeFaceAttrib returned %d", ok);
    long pairs = 0;
    if (p.root()) { Whole W(M.D, M.dim); std::vector<IV> el(W.n(d)); for (int e = 0; e < W.n(M.dim); e++) for (int s : W.cl[d][e]) el[s].push_back(e);
      auto old = st[d][a]; scatter(a);
      for (int w = 0; w < W.n(d); w++) { int o = M.owner[d][w]; if (o < 0 || el[w].size() != 2) continue; int r0 = M.owner[M.dim][el[w][0]], r1 = M.owner[M.dim][el[w][1]]; if (r0 == r1) continue; int other = r0 == o ? r1 : r0;
        int po = -1, pg = -1; for (auto& q : M.copies[d][w]) { if (q.first == o) po = q.second; if (q.first == other) pg = q.second; } if (po < 0 || pg < 0) continue;
        st[d][a][o][po] = old[other][pg]; pairs++; } }
    c.count("exchanged", pairs); compare("exchange");
  }
  void coords() {
    round++; PV vs = ents(M.my, 0);
    auto mv = [&](int r, int i, V3& x) { uint64_t h = mixh(mixh(mixh(seed + 9, round), r), i); if (h % 3 == 0) return; for (int q = 0; q < 3; q++) x[q] += ((int)((h >> (8 + 12 * q)) % 4001) - 2000) * 1e-3; };
    for (size_t i = 0; i < vs.size(); i++) { double x[3]; MV_Coords(vs[i], x); V3 y = {x[0], x[1], x[2]}; mv(p.rank, (int)i, y); x[0] = y[0]; x[1] = y[1]; x[2] = y[2]; MV_Set_Coords(vs[i], x); }
    if (p.root()) for (int r = 0; r < p.np; r++) for (size_t i = 0; i < xy[r].size(); i++) mv(r, (int)i, xy[r][i]);
    int ok = MESH_UpdateVertexCoords(M.my, p.comm); CHECK(c, ok, k + "coords.result", "MESH_UpdateVertexCoords returned %d", ok);
    std::vector<Part> q = collect(p, M.my, M.dim);
    if (p.root()) { for (int w = 0; w < M.n(0); w++) { int o = M.owner[0][w]; V3 x{}; for (auto& cp : M.copies[0][w]) if (cp.first == o) x = xy[o][cp.second]; if (o >= 0) for (auto& cp : M.copies[0][w]) xy[cp.first][cp.second] = x; }
      for (int r = 0; r < p.np; r++) for (size_t i = 0; i < xy[r].size(); i++) CHECK(c, q[r].e[0][i].x == xy[r][i], k + "coords", "rank %d vertex %zu (GID %d, type %d) is at %.17g,..., should be at %.17g,...", r, i, q[r].e[0][i].gid, q[r].e[0][i].pt, q[r].e[0][i].x[0], xy[r][i][0]);
      c.count("vertices_compared", (long)xy.size()); M.ps = q; }
    compare("coords");
  }
  void renumber() {
    MType t = g.chance(0.4) ? MALLTYPE : (MType)g.below(M.dim + 1); bool search = g.chance(0.4); if (search) MESH_Enable_GlobalIDSearch(M.my);
    std::vector<Part> b = M.ps; int ok = MESH_Renumber_GlobalIDs(M.my, t, 0, nullptr, p.comm); CHECK(c, ok, k + "renumber.result", "MESH_Renumber_GlobalIDs returned %d", ok);
    if (search) { for (int d = 0; d <= M.dim; d++) for (void* e : ents(M.my, d)) CHECK(c, MESH_EntityFromGlobalID(M.my, (MType)d, MEnt_GlobalID(e)) == e, k + "renumber.lookup", "rank %d: lookup of global ID %d of dimension %d", p.rank, MEnt_GlobalID(e), d); MESH_Disable_GlobalIDSearch(M.my); }
    judge_local(c, k + "renumber", "P02", M.my, M.dim, p.rank); judge_local(c, k + "renumber", "P03", M.my, M.dim, p.rank);
    M.ps = collect(p, M.my, M.dim);
    if (p.root()) {
      for (int r = 0; r < p.np; r++) for (int d = 0; d <= M.dim; d++) { CHECK(c, M.ps[r].e[d].size() == b[r].e[d].size(), k + "renumber.count", "rank %d has %zu entities of dimension %d, had %zu", r, M.ps[r].e[d].size(), d, b[r].e[d].size()); if (M.ps[r].e[d].size() != b[r].e[d].size()) return;
        for (size_t i = 0; i < b[r].e[d].size(); i++) { const PEnt &x = M.ps[r].e[d][i], &y = b[r].e[d][i]; CHECK(c, x.pt == y.pt && x.mp == y.mp && x.c == y.c && x.x == y.x && x.gd == y.gd && x.gg == y.gg && x.id == y.id, k + "renumber.changed", "rank %d entity %zu of dimension %d is not what it was", r, i, d);
          if (t != MALLTYPE && (int)t != d) CHECK(c, x.gid == y.gid, k + "renumber.other", "rank %d entity %zu of dimension %d has global ID %d, had %d, when dimension %d was renumbered", r, i, d, x.gid, y.gid, (int)t); }
        for (int l = 0; l < 2; l++) { const IV& L = l ? M.ps[r].over[d] : M.ps[r].ghost[d]; const IV& B = l ? b[r].over[d] : b[r].ghost[d]; CHECK(c, sorted(L) == sorted(B), k + "renumber.list", "rank %d %s list of dimension %d has other members", r, l ? "overlap" : "ghost", d);
          for (size_t i = 1; i < L.size(); i++) CHECK(c, M.ps[r].e[d][L[i-1]].gid < M.ps[r].e[d][L[i]].gid, k + "renumber.list-order", "rank %d %s list of dimension %d is not in order of global IDs", r, l ? "overlap" : "ghost", d); } }
      for (int d = 0; d <= M.dim; d++) { int next = 1;
        if (t == MALLTYPE || (int)t == d) for (int r = 0; r < p.np; r++) for (size_t i = 0; i < M.ps[r].e[d].size(); i++) { const PEnt& x = M.ps[r].e[d][i]; if (x.pt == PGHOST) continue; CHECK(c, x.gid == next, k + "renumber.sequence", "rank %d owned entity %zu of dimension %d has global ID %d, should be %d", r, i, d, x.gid, next); next++; }
        for (int w = 0; w < M.n(d); w++) { int o = M.owner[d][w], gg = 0; for (auto& q : M.copies[d][w]) if (q.first == o) gg = M.ps[o].e[d][q.second].gid; if (o >= 0) for (auto& q : M.copies[d][w]) CHECK(c, M.ps[q.first].e[d][q.second].gid == gg, k + "renumber.ghost", "rank %d copy of an entity of dimension %d has global ID %d, its owner %d has %d", q.first, d, M.ps[q.first].e[d][q.second].gid, o, gg); } }
      c.count("renumberings");
    }
    compare("renumber");
  }
};
