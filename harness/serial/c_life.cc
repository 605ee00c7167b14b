// C04 entity lifecycle, C05 keep and restore, C06 local IDs and lookup.
// A master model gives all entities that may ever exist; every one of them is absent, alive or kept (deleted with keep=1).
#include "mstk_if.h"

enum { ABS = 0, ALIVE = 1, KEPT = 2 };
struct Ent { void* h = nullptr; int st = ABS, id = 0, gdim = 0, gid = 0; };

struct Life {
  Ctx& c;
  Model m0; Topo T; Mesh_ptr mesh = nullptr; RepType rep; bool full, vf;   // vf: faces have handles
  std::vector<Ent> E[4];
  std::unordered_map<void*, std::pair<int,int>> known;                     // alive handles
  std::set<int> ids[4];                                                    // IDs in use by alive or kept
  bool restored_after_renum = false;
  Life(Ctx& c_, Model m, RepType r) : c(c_), m0(m), T(topo(m)), rep(r) {
    full = r == F1 || r == F4;
    vf = full || r == R4 || m0.r.empty();
    mesh = MESH_New(r);
    E[0].resize(m0.x.size()); E[1].resize(T.e.size()); E[2].resize(T.f.size()); E[3].resize(m0.r.size());
  }
  int nst(int d, int st) { int n = 0; for (auto& e : E[d]) n += e.st == st; return n; }
  void born(int d, int i, void* h) {
    Ent& e = E[d][i];
    e.h = h; e.st = ALIVE; e.id = MEnt_ID(h); e.gdim = MEnt_GEntDim(h); e.gid = MEnt_GEntID(h);
    known[h] = {d, i};
    c.count("created");
    CHECK(c, e.id > 0, "new-id", "dim %d new ID %d", d, e.id);
    CHECK(c, ids[d].insert(e.id).second, "new-id-unique", "dim %d: new entity got ID %d which is in use", d, e.id);
  }
  void classify(int d, int i) {
    Ent& e = E[d][i];
    if (!c.rng.chance(0.4)) return;
    e.gdim = c.rng.range(d, 3); e.gid = c.rng.range(1, 9);
    MEnt_Set_GEntDim(e.h, e.gdim); MEnt_Set_GEntID(e.h, e.gid);
  }
  MView view() { MView w; w.m = mesh; w.rep = rep; for (auto& e : E[0]) w.v.push_back(e.st == ALIVE ? e.h : nullptr); for (size_t i = 0; i < w.v.size(); i++) if (w.v[i]) w.vid[w.v[i]] = (int)i; return w; }
  // entities the library made on its own while we built something
  void discover() {
    MView w = view();
    if (full) { int i = 0; void* e; while ((e = MESH_Next_Edge(mesh, &i))) if (!known.count(e)) {
      auto it = T.eidx.find(w.E(e));
      if (it == T.eidx.end() || E[1][it->second].st != ABS) { c.fail("spurious-edge", "edge %s appeared, %s", sk(w.E(e)).c_str(), it == T.eidx.end() ? "not an edge of the mesh" : "exists already"); continue; }
      born(1, it->second, e);
    } }
    if (vf) { int i = 0; void* f; while ((f = MESH_Next_Face(mesh, &i))) if (!known.count(f)) {
      auto it = T.fidx.find(w.F(f));
      if (it == T.fidx.end() || E[2][it->second].st != ABS) { c.fail("spurious-face", "face %s appeared, %s", sk(w.F(f)).c_str(), it == T.fidx.end() ? "not a face of the mesh" : "exists already"); continue; }
      born(2, it->second, f);
    } }
  }
  bool vs_alive(const IV& v) { for (int i : v) if (E[0][i].st != ALIVE) return false; return true; }
  bool make_v(int i) {
    if (E[0][i].st != ABS) return false;
    void* v = MV_New(mesh); double x[3] = {m0.x[i][0], m0.x[i][1], m0.x[i][2]}; MV_Set_Coords(v, x);
    born(0, i, v); classify(0, i); return true;
  }
  bool make_e(int i) {
    if (E[1][i].st != ABS || !full || E[0][T.e[i].first].st != ALIVE || E[0][T.e[i].second].st != ALIVE) return false;
    void* e = ME_New(mesh); bool fl = c.rng.chance(0.5);
    ME_Set_Vertex(e, fl, E[0][T.e[i].first].h); ME_Set_Vertex(e, !fl, E[0][T.e[i].second].h);
    born(1, i, e); classify(1, i); return true;
  }
  bool make_f(int i) {
    if (E[2][i].st != ABS || !vf || !vs_alive(T.f[i])) return false;
    if (full) for (int e : T.fe[i]) if (E[1][e].st == KEPT) return false;
    IV cy = T.f[i];
    if (c.rng.chance(0.3)) std::reverse(cy.begin(), cy.end());
    std::rotate(cy.begin(), cy.begin() + c.rng.below((int)cy.size()), cy.end());
    void* f = MF_New(mesh);
    if (!full || c.rng.chance(0.5)) {
      PV vs; for (int v : cy) vs.push_back(E[0][v].h);
      MF_Set_Vertices(f, (int)vs.size(), vs.data());
    } else {
      PV es; std::vector<int> ds;
      for (size_t j = 0; j < cy.size(); j++) {
        int a = cy[j], e = T.edge(a, cy[(j + 1) % cy.size()]);
        if (E[1][e].st == ABS) make_e(e);
        es.push_back(E[1][e].h); ds.push_back(ME_Vertex(E[1][e].h, 0) == E[0][a].h);
      }
      MF_Set_Edges(f, (int)es.size(), es.data(), ds.data());
    }
    born(2, i, f); classify(2, i); discover(); return true;
  }
  bool make_r(int i) {
    if (E[3][i].st != ABS || !vs_alive(T.rv[i])) return false;
    if (full) for (int e : T.re[i]) if (E[1][e].st == KEPT) return false;
    if (vf) for (auto& q : T.rf[i]) if (E[2][q.first].st == KEPT) return false;
    const MRegM& R = m0.r[i];
    void* r = MR_New(mesh);
    bool byv = rep == R4 ? false : full ? c.rng.chance(0.5) : true;
    if (byv) {
      if (R.fv.empty()) { PV vs; for (int v : R.v) vs.push_back(E[0][v].h); MR_Set_Vertices(r, (int)vs.size(), vs.data(), 0, nullptr); }
      else {
        IV vs; std::map<int,int> loc;
        for (auto& f : R.fv) for (int v : f) if (!loc.count(v)) { loc[v] = (int)vs.size(); vs.push_back(v); }
        PV vp; for (int v : vs) vp.push_back(E[0][v].h);
        std::vector<std::vector<int>> tpl; std::vector<int*> tp;
        for (auto& f : R.fv) { std::vector<int> t = {(int)f.size()}; for (int v : f) t.push_back(loc[v]); tpl.push_back(t); }
        for (auto& t : tpl) tp.push_back(t.data());
        MR_Set_Vertices(r, (int)vp.size(), vp.data(), (int)tp.size(), tp.data());
      }
    } else {
      MView w = view(); PV fs; std::vector<int> ds;
      for (auto& q : T.rf[i]) {
        if (E[2][q.first].st == ABS) make_f(q.first);
        void* f = E[2][q.first].h; IV out = T.f[q.first]; if (!q.second) std::reverse(out.begin(), out.end());
        fs.push_back(f); ds.push_back(cyc(w.Fc(f), out) == 1);
      }
      MR_Set_Faces(r, (int)fs.size(), fs.data(), ds.data());
    }
    born(3, i, r); classify(3, i); discover(); return true;
  }
  // entities of dimension d+1 (or any higher one) that use (d,i), in the given state
  bool used(int d, int i, int st) {
    auto any = [&](int k, const IV& l) { for (int j : l) if (E[k][j].st == st) return true; return false; };
    if (d == 0) return any(1, T.ve[i]) || any(2, T.vf[i]) || any(3, T.vr[i]);
    if (d == 1) return any(2, T.ef[i]) || any(3, T.er[i]);
    if (d == 2) return any(3, T.fr[i]);
    return false;
  }
  bool has(int d) { return d == 0 || d == 3 || (d == 1 && full) || (d == 2 && vf); }
  bool bound_alive(int d, int i) {
    if (d == 0) return true;
    if (d == 1) return E[0][T.e[i].first].st == ALIVE && E[0][T.e[i].second].st == ALIVE;
    IV vs = d == 2 ? T.f[i] : T.rv[i];
    if (!vs_alive(vs)) return false;
    if (full) for (int e : d == 2 ? T.fe[i] : T.re[i]) if (E[1][e].st != ALIVE) return false;
    if (d == 3 && vf) for (auto& q : T.rf[i]) if (E[2][q.first].st != ALIVE) return false;
    return true;
  }
  bool del(int d, int i, bool keep) {
    Ent& e = E[d][i];
    if (!has(d) || e.st != ALIVE || used(d, i, ALIVE) || (!keep && used(d, i, KEPT))) return false;
    void* h = e.h;
    switch (d) { case 0: MV_Delete(h, keep); break; case 1: ME_Delete(h, keep); break; case 2: MF_Delete(h, keep); break; case 3: MR_Delete(h, keep); break; }
    known.erase(h);
    if (keep) {
      e.st = KEPT; c.count("kept");
      CHECK(c, MEnt_Dim(h) == MDELETED, "kept-dim", "dim %d: MEnt_Dim of a deleted entity is %d", d, (int)MEnt_Dim(h));
      CHECK(c, (int)MEnt_OrigDim(h) == d, "kept-origdim", "dim %d: MEnt_OrigDim %d", d, (int)MEnt_OrigDim(h));
      CHECK(c, MEnt_ID(h) == e.id, "kept-id", "dim %d: ID %d was %d", d, MEnt_ID(h), e.id);
      CHECK(c, MEnt_GEntID(h) == e.gid && MEnt_GEntDim(h) == e.gdim, "kept-class", "dim %d", d);
    } else { ids[d].erase(e.id); e = Ent(); c.count("deleted"); }
    return true;
  }
  bool purge(int d, int i, bool any = false) {             // permanent deletion of a kept entity; any: even while kept entities use it, which then can only be deleted
    Ent& e = E[d][i];
    if (e.st != KEPT || (!any && used(d, i, KEPT))) return false;
    switch (d) { case 0: MV_Delete(e.h, 0); break; case 1: ME_Delete(e.h, 0); break; case 2: MF_Delete(e.h, 0); break; case 3: MR_Delete(e.h, 0); break; }
    ids[d].erase(e.id); e = Ent(); c.count("purged"); return true;
  }
  bool restore(int d, int i) {
    Ent& e = E[d][i];
    if (e.st != KEPT || !bound_alive(d, i)) return false;
    switch (d) { case 0: MV_Restore(e.h); break; case 1: ME_Restore(e.h); break; case 2: MF_Restore(e.h); break; case 3: MR_Restore(e.h); break; }
    e.st = ALIVE; known[e.h] = {d, i}; c.count("restored");
    CHECK(c, (int)MEnt_Dim(e.h) == d, "restored-dim", "dim %d: MEnt_Dim %d", d, (int)MEnt_Dim(e.h));
    CHECK(c, MEnt_ID(e.h) == e.id, "restored-id", "dim %d: ID %d was %d", d, MEnt_ID(e.h), e.id);
    return true;
  }
  int rnd(int d) { return c.rng.below((int)E[d].size()); }
  // delete while iterating: every entity alive at the start is visited exactly once
  void sweep(int d, bool keep) {
    if (!has(d) || E[d].empty()) return;
    std::map<void*, int> seen; int start = nst(d, ALIVE), idx = 0; void* h; long guard = 0;
    double p = c.rng.unit();
    while ((h = d == 0 ? MESH_Next_Vertex(mesh, &idx) : d == 1 ? MESH_Next_Edge(mesh, &idx) : d == 2 ? MESH_Next_Face(mesh, &idx) : MESH_Next_Region(mesh, &idx))) {
      if (++guard > start + 50) break;
      auto it = known.find(h);
      if (it == known.end()) { c.fail("sweep-dead", "dim %d: iteration returned a deleted entity", d); return; }
      seen[h]++;
      int i = it->second.second;
      if (c.rng.chance(p)) del(d, i, keep && c.rng.chance(0.6));
    }
    c.count("sweeps");
    CHECK(c, (int)seen.size() == start && guard == start, "sweep", "dim %d: deletion while iterating visited %zu entities in %ld steps of %d", d, seen.size(), guard, start);
  }
  // full comparison with the model of what is alive
  void check(int flags) {
    c.count("states");
    static const char* dn[] = {"vertex", "edge", "face", "region"};
    for (int d = 0; d < 4; d++) {
      if (!has(d)) continue;
      PV all; int idx = 0; void* h; long guard = 0;
      while ((h = d == 0 ? MESH_Next_Vertex(mesh, &idx) : d == 1 ? MESH_Next_Edge(mesh, &idx) : d == 2 ? MESH_Next_Face(mesh, &idx) : MESH_Next_Region(mesh, &idx))) { all.push_back(h); if (++guard > 100000) break; }
      std::set<void*> got(all.begin(), all.end()), want;
      for (auto& e : E[d]) if (e.st == ALIVE) want.insert(e.h);
      CHECK(c, got == want && all.size() == want.size(), std::string("alive-") + dn[d], "%s iteration has %zu entries (%zu distinct), %zu entities alive", dn[d], all.size(), got.size(), want.size());
      if (got != want) return;
      int n = d == 0 ? MESH_Num_Vertices(mesh) : d == 1 ? MESH_Num_Edges(mesh) : d == 2 ? MESH_Num_Faces(mesh) : MESH_Num_Regions(mesh);
      CHECK(c, n == (int)want.size(), std::string("num-") + dn[d], "%s count %d, %zu alive", dn[d], n, want.size());
      for (auto& e : E[d]) if (e.st == ALIVE) {
        CHECK(c, MEnt_ID(e.h) == e.id, std::string("id-") + dn[d], "%s ID %d was %d", dn[d], MEnt_ID(e.h), e.id);
        CHECK(c, (int)MEnt_GEntDim(e.h) == e.gdim && MEnt_GEntID(e.h) == e.gid, std::string("class-") + dn[d], "%s classification %d/%d was %d/%d", dn[d], (int)MEnt_GEntDim(e.h), MEnt_GEntID(e.h), e.gdim, e.gid);
        CHECK(c, (int)MEnt_Dim(e.h) == d, std::string("dim-") + dn[d], "%s has dimension %d", dn[d], (int)MEnt_Dim(e.h));
      } else if (e.st == KEPT) CHECK(c, MEnt_Dim(e.h) == MDELETED, std::string("kept-") + dn[d], "kept %s has dimension %d", dn[d], (int)MEnt_Dim(e.h));
      long cap = 0;
      for (auto& e : E[d]) cap += e.st == ALIVE;
      (void)cap;
    }
    // model of the alive part
    Model cur; cur.dim = m0.dim; cur.kind = m0.kind;
    IV nu(m0.x.size(), -1); MView w; w.m = mesh; w.rep = rep;
    for (size_t i = 0; i < m0.x.size(); i++) if (E[0][i].st == ALIVE) { nu[i] = (int)cur.x.size(); cur.x.push_back(m0.x[i]); w.v.push_back(E[0][i].h); }
    w.setv();
    auto ren = [&](IV v) { for (int& k : v) k = nu[k]; return v; };
    if (cur.x.empty()) return;
    if (vf) for (size_t i = 0; i < T.f.size(); i++) if (E[2][i].st == ALIVE) { MFaceM F; F.v = ren(T.f[i]); cur.f.push_back(F); }
    for (size_t i = 0; i < m0.r.size(); i++) if (E[3][i].st == ALIVE) {
      MRegM R = m0.r[i]; R.v = ren(R.v); for (auto& f : R.fv) f = ren(f); cur.r.push_back(R);
    }
    if (full) for (size_t i = 0; i < T.e.size(); i++) if (E[1][i].st == ALIVE) cur.xe.push_back({nu[T.e[i].first], nu[T.e[i].second]});
    verify(c, w, cur, flags, "");
    // handle identity through the keys
    if (full) for (size_t i = 0; i < T.e.size(); i++) if (E[1][i].st == ALIVE) {
      void* h = MVs_CommonEdge(E[0][T.e[i].first].h, E[0][T.e[i].second].h);
      CHECK(c, h == E[1][i].h, "identity-edge", "edge between two vertices is another one");
    }
    if (vf) { MView w0 = view(); for (size_t i = 0; i < T.f.size(); i++) if (E[2][i].st == ALIVE) CHECK(c, w0.F(E[2][i].h) == sorted(T.f[i]), "identity-face", "face %s has vertices %s", show(sorted(T.f[i])).c_str(), show(w0.F(E[2][i].h)).c_str()); }
    { MView w0 = view(); for (size_t i = 0; i < m0.r.size(); i++) if (E[3][i].st == ALIVE) CHECK(c, w0.R(E[3][i].h) == T.rv[i], "identity-region", "region %s has vertices %s", show(T.rv[i]).c_str(), show(w0.R(E[3][i].h)).c_str()); }
  }
  void build_all(double p) {
    std::vector<int> o(E[0].size()); std::iota(o.begin(), o.end(), 0);
    for (int i : o) if (c.rng.chance(p > 0.99 ? 1 : 0.97)) make_v(i);
    o.resize(E[3].size()); std::iota(o.begin(), o.end(), 0); c.rng.shuffle(o);
    for (int i : o) if (c.rng.chance(p)) make_r(i);
    if (m0.r.empty()) for (size_t i = 0; i < E[2].size(); i++) if (c.rng.chance(p)) make_f((int)i);
  }
  bool step(bool keeps, std::string& h) {
    int top = m0.r.empty() ? 2 : 3;
    int op = c.rng.below(100);
    int d = c.rng.chance(0.5) ? top : c.rng.below(top + 1);
    if (!has(d) || E[d].empty()) return false;
    int i = rnd(d);
    // look for a suitable one
    auto seek = [&](auto f) { for (int k = 0; k < (int)E[d].size(); k++) { int j = (i + k) % (int)E[d].size(); if (f(j)) { i = j; return true; } } return false; };
    bool ok = false;
    if (op < 40) { bool keep = keeps && c.rng.chance(0.65); ok = seek([&](int j) { return del(d, j, keep); }); if (ok) h += keep ? "k" : "d"; }
    else if (op < 70) {
      ok = seek([&](int j) { return d == 0 ? make_v(j) : d == 1 ? make_e(j) : d == 2 ? make_f(j) : make_r(j); }); if (ok) h += "n";
    } else if (op < 85 && keeps) { ok = seek([&](int j) { return restore(d, j); }); if (ok) h += "r"; }
    else if (op < 92 && keeps) { ok = seek([&](int j) { return purge(d, j); }); if (ok) h += "p"; }
    else if (op >= 97) { sweep(d, keeps); h += "s"; ok = true; }
    if (ok) { h += "vefr"[d]; c.mix(op * 977 + d * 31 + i); }
    return ok;
  }
};

static RepType pick_rep(Ctx& c, bool keeps) {
  static const RepType all[] = {F1, F4, F1, F4, R1, R2, R4};
  return all[c.rng.below(keeps ? 4 : 7)];
}
static Model life_model(Ctx& c, RepType rep) {
  GenOpt o; o.size = c.rng.chance(0.7) || rep == R1 || rep == R2 ? 2 : 3; o.manifold = !c.rng.chance(0.2);
  o.many = rep == F1 || rep == F4;
  Model m = gen(c.rng, o);
  m.xe.clear();
  return m;
}

CASE(C04, lifecycle, 10) {
  RepType rep = pick_rep(c, false);
  Life L(c, life_model(c, rep), rep);
  L.build_all(c.rng.chance(0.5) ? 1 : 0.8);
  L.check(VF_COORDS | VF_COMMON | VF_ORIENT | VF_IDS);
  std::string h; int nb = c.rng.range(2, 6);
  for (int b = 0; b < nb && !c.failed(); b++) {
    int n = c.rng.range(1, 12);
    for (int s = 0; s < n && !c.failed(); s++) L.step(false, h);
    L.check(VF_COORDS | VF_COMMON | VF_ORIENT | VF_IDS);
    h += "|";
  }
  // finally everything away, top down
  if (!c.failed() && c.rng.chance(0.3)) {
    for (int d = 3; d >= 0; d--) if (L.has(d)) { for (size_t i = 0; i < L.E[d].size(); i++) L.del(d, (int)i, false); }
    int left = MESH_Num_Vertices(L.mesh) + MESH_Num_Edges(L.mesh) + MESH_Num_Faces(L.mesh) + MESH_Num_Regions(L.mesh);
    CHECK(c, left == 0, "emptied", "%d entities left in an emptied mesh", left);
    h += "0";
  }
  c.note("%s %s: %s", rep_name(rep), L.m0.kind.c_str(), h.c_str());
  c.nontrivial = h.size() > 4; c.mix(model_hash(L.m0) + rep);
  MESH_Delete(L.mesh);
}

CASE(C05, keep_restore, 10) {
  RepType rep = pick_rep(c, true);
  Life L(c, life_model(c, rep), rep);
  L.build_all(1);
  std::string h; int nb = c.rng.range(2, 6), mode = c.rng.below(3);
  if (mode == 0) {        // take a random part away with keep and restore all of it: everything as before
    L.check(VF_COORDS | VF_COMMON | VF_ORIENT | VF_IDS);
    for (int round = 0; round < nb && !c.failed(); round++) {
      double p = c.rng.unit();
      for (int d = 3; d >= 0; d--) if (L.has(d)) { std::vector<int> o(L.E[d].size()); std::iota(o.begin(), o.end(), 0); c.rng.shuffle(o); for (int i : o) if (c.rng.chance(p)) L.del(d, i, true); }
      L.check(VF_COORDS | VF_COMMON | VF_ORIENT | VF_IDS);
      for (int d = 0; d < 4; d++) if (L.has(d)) { std::vector<int> o(L.E[d].size()); std::iota(o.begin(), o.end(), 0); c.rng.shuffle(o); for (int i : o) L.restore(d, i); }
      int kept = 0; for (int d = 0; d < 4; d++) kept += L.nst(d, KEPT);
      CHECK(c, kept == 0, "harness", "%d entities not restored", kept);
      L.check(VF_COORDS | VF_COMMON | VF_ORIENT | VF_IDS);
      h += "kr|";
    }
  } else for (int b = 0; b < nb && !c.failed(); b++) {
    int n = c.rng.range(1, 15);
    for (int s = 0; s < n && !c.failed(); s++) L.step(true, h);
    L.check(VF_COORDS | VF_COMMON | VF_ORIENT | VF_IDS);
    h += "|";
  }
  // a kept entity that is never restored must be deletable for good, in whatever order
  bool any = c.rng.chance(0.5); std::vector<std::pair<int,int>> po;
  for (int d = 3; d >= 0; d--) for (size_t i = 0; i < L.E[d].size(); i++) po.push_back({d, (int)i});
  if (any) c.rng.shuffle(po);
  for (auto& q : po) if (L.E[q.first][q.second].st == KEPT && L.purge(q.first, q.second, any) && any) c.count("purged in any order");
  L.check(VF_COORDS | VF_IDS);
  c.note("%s %s: %s", rep_name(rep), L.m0.kind.c_str(), h.c_str());
  c.nontrivial = h.size() > 4; c.mix(model_hash(L.m0) + rep);
  MESH_Delete(L.mesh);
}

// ------------------------------------------------------------------ C06
static void* from_id(Mesh_ptr m, int d, int id) {
  switch (d) { case 0: return MESH_VertexFromID(m, id); case 1: return MESH_EdgeFromID(m, id); case 2: return MESH_FaceFromID(m, id); default: return MESH_RegionFromID(m, id); }
}
static void lookups(Life& L) {
  Ctx& c = L.c;
  static const char* dn[] = {"Vertex", "Edge", "Face", "Region"};
  for (int d = 0; d < 4; d++) {
    if (!L.has(d)) continue;
    std::map<int, void*> byid; int mx = 0;
    for (auto& e : L.E[d]) if (e.st == ALIVE) { byid[e.id] = e.h; mx = std::max(mx, e.id); }
    IV q; for (auto& b : byid) q.push_back(b.first);
    for (auto& e : L.E[d]) if (e.st == KEPT) q.push_back(e.id);
    c.rng.shuffle(q); if ((int)q.size() > 40) q.resize(40);
    for (int k = 0; k < 4; k++) q.push_back(c.rng.range(1, mx + 5));
    q.push_back(0); q.push_back(-3); q.push_back(mx + 1);
    for (int id : q) {
      void* want = byid.count(id) ? byid[id] : nullptr;
      void* got = c.rng.chance(0.7) ? from_id(L.mesh, d, id) : MESH_EntityFromID(L.mesh, (MType)d, id);
      c.count("lookups");
      CHECK(c, got == want, std::string("from-id-") + dn[d], "%s with ID %d: %s, %s", dn[d], id, got ? "found one" : "none", want ? "another is alive with it" : "none is alive with it");
    }
  }
}
// global IDs of the user's, looked up at any point of the history; searching stays enabled through later changes half of the time
static void global_lookups(Life& L) {
  Ctx& c = L.c; static const char* dn[] = {"Vertex", "Edge", "Face", "Region"}; std::map<int, void*> by[4]; int top = 0;
  for (int d = 0; d < 4; d++) { IV ids; for (auto& e : L.E[d]) if (e.st == ALIVE && L.has(d)) ids.push_back(0);
    int step = c.rng.range(1, 4), at = c.rng.below(20); for (int& i : ids) i = at += step; c.rng.shuffle(ids); size_t k = 0; top = std::max(top, at);
    if (L.has(d)) for (auto& e : L.E[d]) if (e.st == ALIVE) { MEnt_Set_GlobalID(e.h, ids[k]); by[d][ids[k++]] = e.h; } }
  MESH_Enable_GlobalIDSearch(L.mesh);
  for (int d = 0; d < 4; d++) { IV q; for (auto& b : by[d]) q.push_back(b.first); c.rng.shuffle(q); if (q.size() > 25) q.resize(25); q.push_back(0); q.push_back(top + 1); q.push_back(-2); for (int k = 0; k < 3; k++) q.push_back(c.rng.range(1, top + 2));
    for (int id : q) { void* want = by[d].count(id) ? by[d][id] : nullptr, *got;
      if (c.rng.chance(0.3)) got = MESH_EntityFromGlobalID(L.mesh, (MType)d, id); else switch (d) { case 0: got = MESH_VertexFromGlobalID(L.mesh, id); break; case 1: got = MESH_EdgeFromGlobalID(L.mesh, id); break; case 2: got = MESH_FaceFromGlobalID(L.mesh, id); break; default: got = MESH_RegionFromGlobalID(L.mesh, id); }
      c.count("lookups of global IDs");
      CHECK(c, got == want, std::string("from-global-id-") + dn[d], "%s with global ID %d: %s, %s", dn[d], id, got ? "found one" : "none", want ? "another is alive with it" : "none is alive with it"); } }
  if (c.rng.chance(0.5)) MESH_Disable_GlobalIDSearch(L.mesh);
}
CASE(C06, id_history, 10) {
  static const RepType reps[] = {F1, F4, F1, R1, R2, R4};
  RepType rep = reps[c.rng.below(6)];
  bool full = rep == F1 || rep == F4, keeps = full && c.rng.chance(0.5), renum = !keeps && c.rng.chance(0.5);
  Life L(c, life_model(c, rep), rep);
  L.build_all(c.rng.chance(0.5) ? 1 : 0.8);
  lookups(L);
  std::string h; int nb = c.rng.range(2, 8);
  for (int b = 0; b < nb && !c.failed(); b++) {
    int n = c.rng.range(1, 8);
    for (int s = 0; s < n && !c.failed(); s++) {
      int op = c.rng.below(10);
      if (op < 5) L.step(keeps, h);
      else if (op < 7) { MESH_Enable_LocalIDSearch(L.mesh); h += "E"; }
      else if (op < 9) {           // a new ID nobody uses
        int d = c.rng.below(4); if (!L.has(d) || L.E[d].empty()) continue;
        int i = L.rnd(d); Ent& e = L.E[d][i]; if (e.st != ALIVE) continue;
        int id; do id = c.rng.range(1, (int)L.E[d].size() * 3 + 5); while (L.ids[d].count(id));
        L.ids[d].erase(e.id); L.ids[d].insert(id); e.id = id;
        c.rng.chance(0.5) ? MEnt_Set_ID(e.h, id) : d == 0 ? MV_Set_ID(e.h, id) : d == 1 ? ME_Set_ID(e.h, id) : d == 2 ? MF_Set_ID(e.h, id) : MR_Set_ID(e.h, id);
        CHECK(c, MEnt_ID(e.h) == id, "set-id", "ID %d set, %d returned", id, MEnt_ID(e.h)); h += "I";
      } else if (renum) {
        MType mt = c.rng.chance(0.4) ? MALLTYPE : (MType)c.rng.below(4);
        if (mt != MALLTYPE && !L.has((int)mt)) continue;
        MESH_Renumber(L.mesh, 0, mt);
        for (int d = 0; d < 4; d++) if (L.has(d) && (mt == MALLTYPE || (int)mt == d)) {
          L.ids[d].clear(); int na = L.nst(d, ALIVE);
          for (auto& e : L.E[d]) if (e.st == ALIVE) { e.id = MEnt_ID(e.h); CHECK(c, e.id >= 1 && e.id <= na && L.ids[d].insert(e.id).second, "renumber-ids", "dim %d: ID %d after renumbering of %d entities", d, e.id, na); }
        }
        h += "R";
      }
      if (c.rng.chance(0.3)) lookups(L);
    }
    lookups(L);
    if (c.rng.chance(0.4)) { global_lookups(L); h += "G"; }
    L.check(VF_IDS);
    h += "|";
  }
  c.note("%s %s: %s", rep_name(rep), L.m0.kind.c_str(), h.c_str());
  c.nontrivial = h.size() > 4; c.mix(model_hash(L.m0) + rep); c.mixs(h);
  for (int d = 3; d >= 0; d--) for (size_t i = 0; i < L.E[d].size(); i++) L.purge(d, (int)i);
  MESH_Delete(L.mesh);
}
