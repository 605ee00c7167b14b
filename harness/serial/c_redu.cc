// C24: edges and faces made on demand in reduced representations; the hash table that can hold them.
#include "mstk_if.h"
extern "C" {
int Hash_AutoRemove(Hash_ptr h);
void Hash_Set_AutoRemove(Hash_ptr h, int t);
Hash_ptr Hash_New(unsigned int inisize, int type);
void Hash_Delete(Hash_ptr h);
Hash_ptr Hash_Add(Hash_ptr h, void* entry, unsigned int np, void** p);
Hash_ptr Hash_ChknAdd(Hash_ptr h, void* entry, unsigned int np, void** p);
void* Hash_Entry(Hash_ptr h, unsigned int np, void** p);
int Hash_Num_Entries(Hash_ptr h);
List_ptr Hash_Entries(Hash_ptr h);
unsigned int Hash_Remove_Unused(Hash_ptr h);
void MEnt_Set_Volatile(MEntity_ptr ent);
int ME_IsLocked(MEdge_ptr e);
int MF_IsLocked(MFace_ptr f);
}

namespace {
struct Held {            // an object the library made on demand and the user keeps
  void* p; bool edge; EK ek; IV fk; int locks;
};
struct Pool {
  Ctx& c; MView& w; const Model& m; Topo t; Verifier ver; bool volF;
  std::vector<Held> held;
  std::map<EK, std::pair<int, int>> ecl; std::map<IV, std::pair<int, int>> fcl;
  bool cl = true;
  Pool(Ctx& c_, MView& w_, const Model& m_) : c(c_), w(w_), m(m_), t(topo(m_)), ver(c_, w_, m_, t, 0), volF((w_.rep == R1 || w_.rep == R2) && !m_.r.empty()) {}
  bool locked(const Held& h) { return h.edge ? ME_IsLocked(h.p) : MF_IsLocked(h.p); }

  // what a fresh or long kept object must be
  void same(const Held& h, const char* when) {
    c.count("oracle_checks");
    if (h.edge) {
      CHECK(c, MEnt_Dim(h.p) == MEDGE && ME_Mesh(h.p) == w.m && MEnt_IsVolatile(h.p), "object", "edge %s %s: no longer an edge of the mesh made on demand", sk(h.ek).c_str(), when);
      CHECK(c, w.E(h.p) == h.ek, "vertices", "edge %s %s has vertices %s", sk(h.ek).c_str(), when, sk(w.E(h.p)).c_str());
      std::pair<int, int> g(ME_GEntDim(h.p), ME_GEntID(h.p));
      auto it = ecl.insert({h.ek, g}).first;
      CHECK(c, !cl || it->second == g, "class", "edge %s %s on model entity %d/%d, another time %d/%d", sk(h.ek).c_str(), when, g.first, g.second, it->second.first, it->second.second);
      int d0 = MV_GEntDim(w.v[h.ek.first]), d1 = MV_GEntDim(w.v[h.ek.second]), i0 = MV_GEntID(w.v[h.ek.first]), i1 = MV_GEntID(w.v[h.ek.second]);
      if (cl && d0 < 4 && d1 < 4 && (d0 != d1 || i0 == i1)) {
        std::pair<int, int> e(std::max(d0, d1), d0 > d1 ? i0 : i1);
        CHECK(c, g == e, "class", "edge %s %s on model entity %d/%d, want %d/%d", sk(h.ek).c_str(), when, g.first, g.second, e.first, e.second);
      }
    } else {
      CHECK(c, MEnt_Dim(h.p) == MFACE && MF_Mesh(h.p) == w.m && MEnt_IsVolatile(h.p), "object", "face %s %s: no longer a face of the mesh made on demand", show(h.fk).c_str(), when);
      IV cy = w.Fc(h.p);
      CHECK(c, sorted(cy) == h.fk, "vertices", "face %s %s has vertices %s", show(h.fk).c_str(), when, show(cy).c_str());
      auto f = t.fidx.find(h.fk);
      if (f != t.fidx.end()) CHECK(c, cyc(t.f[f->second], cy) != 0, "cycle", "face %s %s goes %s", show(t.f[f->second]).c_str(), when, show(cy).c_str());
      std::pair<int, int> g(MF_GEntDim(h.p), MF_GEntID(h.p));
      auto it = fcl.insert({h.fk, g}).first;
      CHECK(c, !cl || it->second == g, "class", "face %s %s on model entity %d/%d, another time %d/%d", show(h.fk).c_str(), when, g.first, g.second, it->second.first, it->second.second);
    }
    CHECK(c, locked(h) == (h.locks > 0), "locked", "%s %s %s: locked %d, lock count %d", h.edge ? "edge" : "face", (h.edge ? sk(h.ek) : show(h.fk)).c_str(), when, (int)locked(h), h.locks);
  }
  void pairs() {
    for (int q = 0; q < 6 && held.size() > 1; q++) {
      const Held &a = held[c.rng.below((int)held.size())], &b = held[c.rng.below((int)held.size())];
      if (a.edge != b.edge) continue;
      if (a.edge) CHECK(c, !!MEs_AreSame(a.p, b.p) == (a.ek == b.ek), "MEs_AreSame", "edges %s and %s", sk(a.ek).c_str(), sk(b.ek).c_str());
      else CHECK(c, !!MFs_AreSame(a.p, b.p) == (a.fk == b.fk), "MFs_AreSame", "faces %s and %s", show(a.fk).c_str(), show(b.fk).c_str());
    }
  }
  void give_back(void* p, bool edge) {
    if (edge) ME_Delete(p, 0); else MF_Delete(p, 0);
  }
  // objects of a query: each right; some are kept, some given back, some left to the library
  void got(List_ptr l, bool edge, const char* what, int how) {
    int lk = MESH_AutoLock(w.m) ? 1 : 0;
    PV p = take(l), back;
    c.count("events", (long)p.size());
    for (void* e : p) {
      Held h{e, edge, {}, {}, lk};
      if (edge) h.ek = w.E(e); else h.fk = w.F(e);
      if (how) h.locks = (edge ? ME_IsLocked(e) : MF_IsLocked(e)) ? 1 : 0;
      same(h, what);
      if (c.rng.chance(0.25) && held.size() < 60) held.push_back(h);
      else if (c.rng.chance(0.4)) back.push_back(e);
    }
    for (void* e : back) give_back(e, edge);
    if (back.size()) c.count("given_back", (long)back.size());
  }
  PV all(int what) {
    PV o; int i = 0; void* p;
    if (what == 2) while ((p = MESH_Next_Face(w.m, &i))) o.push_back(p);
    else while ((p = MESH_Next_Region(w.m, &i))) o.push_back(p);
    return o;
  }
};
}  // namespace

CASE(C24, objects, 5) {
  static const RepType reps[] = {R1, R2, R4};
  RepType rep = reps[c.rng.below(3)];
  GenOpt g; g.size = 1 + c.rng.below(2);
  Model m = gen(c.rng, g);
  BuildOpt o = rand_build(c.rng, rep, m.dim);
  c.note("%s %s V=%zu F=%zu R=%zu", rep_name(rep), m.kind.c_str(), m.x.size(), m.f.size(), m.r.size());
  c.mix(model_hash(m)); c.mix(rep);
  MView w = build(c.rng, m, rep, o);
  if (c.rng.chance(0.6))           // vertices on model entities: the objects inherit from them
    for (void* v : w.v) { int d = c.rng.below(m.dim + 1); MV_Set_GEntDim(v, d); MV_Set_GEntID(v, 1 + c.rng.below(d == m.dim ? 1 : 3)); }
  Pool P(c, w, m);
  int n = 30 + c.rng.below(60);
  for (int s = 0; s < n && !c.failed(); s++) {
    PV F = P.volF ? PV() : P.all(2), R = m.r.empty() ? PV() : P.all(3);
    bool before = !P.held.empty();
    switch (c.rng.below(11)) {
      case 0: if (!R.empty() && P.ver.on("MR_Edges")) {
        void* r = c.rng.pick(R); int i = -1; IV k = w.R(r);
        for (size_t j = 0; j < P.ver.rk.size(); j++) if (P.ver.rk[j] == k) i = (int)j;
        List_ptr l = MR_Edges(r);
        std::vector<EK> e; int ix = 0; void* q; while ((q = List_Next_Entry(l, &ix))) e.push_back(w.E(q));
        if (i >= 0) cmpset<EK>(c, "MR_Edges", e, P.ver.pickk(P.ver.ek, P.t.re[i]), "edges of region");
        P.got(l, true, "MR_Edges", 0); } break;
      case 1: if (!R.empty() && P.volF) {
        void* r = c.rng.pick(R); int i = -1; IV k = w.R(r);
        for (size_t j = 0; j < P.ver.rk.size(); j++) if (P.ver.rk[j] == k) i = (int)j;
        List_ptr l = MR_Faces(r);
        std::vector<IV> e, want; int ix = 0; void* q; while ((q = List_Next_Entry(l, &ix))) e.push_back(w.F(q));
        if (i >= 0) { for (auto& z : P.t.rf[i]) want.push_back(P.ver.fk[z.first]); cmpset<IV>(c, "MR_Faces", e, want, "faces of region"); }
        P.got(l, false, "MR_Faces", 0); } break;
      case 2: if (!F.empty()) {
        void* f = c.rng.pick(F); auto it = P.t.fidx.find(w.F(f));
        List_ptr l = MF_Edges(f, 1, 0);
        std::vector<EK> e; int ix = 0; void* q; while ((q = List_Next_Entry(l, &ix))) e.push_back(w.E(q));
        if (it != P.t.fidx.end()) cmpset<EK>(c, "MF_Edges", e, P.ver.pickk(P.ver.ek, P.t.fe[it->second]), "edges of face");
        P.got(l, true, "MF_Edges", 0); } break;
      case 3: {                                     // edges of a held face
        std::vector<size_t> hf; for (size_t i = 0; i < P.held.size(); i++) if (!P.held[i].edge) hf.push_back(i);
        if (hf.empty()) break;
        Held h = P.held[c.rng.pick(hf)];
        auto it = P.t.fidx.find(h.fk);
        List_ptr l = MF_Edges(h.p, c.rng.below(2), 0);
        std::vector<EK> e; int ix = 0; void* q; while ((q = List_Next_Entry(l, &ix))) e.push_back(w.E(q));
        if (it != P.t.fidx.end()) cmpset<EK>(c, "MF_Edges", e, P.ver.pickk(P.ver.ek, P.t.fe[it->second]), "edges of held face");
        P.got(l, true, "MF_Edges", 0); } break;
      case 4: if (P.ver.on("MV_Edges")) {
        int v = c.rng.below((int)w.v.size());
        if (P.t.ve[v].empty()) break;
        List_ptr l = MV_Edges(w.v[v]);
        std::vector<EK> e; int ix = 0; void* q; while ((q = List_Next_Entry(l, &ix))) e.push_back(w.E(q));
        cmpset<EK>(c, "MV_Edges", e, P.ver.pickk(P.ver.ek, P.t.ve[v]), "edges of vertex");
        P.got(l, true, "MV_Edges", 0); } break;
      case 5: if (P.volF && P.ver.on("MV_Faces")) {
        int v = c.rng.below((int)w.v.size());
        if (P.t.vf[v].empty()) break;
        List_ptr l = MV_Faces(w.v[v]);
        std::vector<IV> e; int ix = 0; void* q; while ((q = List_Next_Entry(l, &ix))) e.push_back(w.F(q));
        cmpset<IV>(c, "MV_Faces", e, P.ver.pickk(P.ver.fk, P.t.vf[v]), "faces of vertex");
        P.got(l, false, "MV_Faces", 0); } break;
      case 6: case 7: if (before) {                 // locks are counted (up to 15, then for good)
        Held& h = P.held[c.rng.below((int)P.held.size())];
        int k = c.rng.chance(0.1) ? 1 + c.rng.below(18) : 1;
        for (int i = 0; i < k; i++) {
          if (c.rng.chance(0.5)) { if (h.edge) ME_Lock(h.p); else MF_Lock(h.p); if (h.locks < 15) h.locks++; }
          else { if (h.edge) ME_UnLock(h.p); else MF_UnLock(h.p); if (h.locks && h.locks < 15) h.locks--; }
          CHECK(c, P.locked(h) == (h.locks > 0), "lock-count", "locked %d with lock count %d", (int)P.locked(h), h.locks);
        }
        c.count("events", k); } break;
      case 8: MESH_Set_AutoLock(w.m, c.rng.below(2)); CHECK(c, 1, "autolock", "%s", ""); break;
      case 9: if (before) {                         // give one back for good
        size_t i = c.rng.below((int)P.held.size());
        P.give_back(P.held[i].p, P.held[i].edge);
        P.held.erase(P.held.begin() + i); } break;
      case 10: if (before) {                        // ask an object
        const Held& h = P.held[c.rng.below((int)P.held.size())];
        if (h.edge) P.ver.edge(h.p); else P.ver.face(h.p);
        if (c.rng.chance(0.1)) { CHECK(c, MESH_Num_Edges(w.m) == 0, "MESH_Num_Edges", "%d", MESH_Num_Edges(w.m)); if (P.volF) CHECK(c, MESH_Num_Faces(w.m) == 0, "MESH_Num_Faces", "%d", MESH_Num_Faces(w.m)); }
      } break;
    }
    if (before && c.rng.chance(0.3)) { for (auto& h : P.held) P.same(h, "later"); P.pairs(); }
  }
  if (c.rng.chance(0.3)) verify(c, w, m, 0);
  for (auto& h : P.held) P.same(h, "at the end");
  P.pairs();
  c.count("objects", (long)P.held.size());
  c.nontrivial = P.held.size() > 1;
  c.mix(P.held.size());
  for (auto& h : P.held) P.give_back(h.p, h.edge);
  if (c.rng.chance(0.3)) verify(c, w, m, 0);
  MESH_Delete(w.m);
}

// The table that keeps such objects: against a map from keys to objects.
CASE(C24, table, 4) {
  Model m = gen(c.rng, [] { GenOpt g; g.size = 1; g.minreg = 1; return g; }());
  if (m.r.empty()) { c.note("no regions"); return; }
  static const RepType reps[] = {R1, R2, R4};
  RepType rep = reps[c.rng.below(3)];
  bool edges = rep == R4 || c.rng.chance(0.5);
  MView w = build(c.rng, m, rep, rand_build(c.rng, rep, m.dim));
  int extra = c.rng.below(40);
  for (int i = 0; i < extra; i++) w.v.push_back(MV_New(w.m));
  int ini = c.rng.chance(0.3) ? 0 : 1 + c.rng.below(9), aut = c.rng.below(2);
  bool own = c.rng.chance(0.25);          // the mesh's own table
  c.note("%s %s vertices %zu initial size %d own %d", rep_name(rep), edges ? "edges" : "faces", w.v.size(), ini, (int)own);
  c.mix(rep); c.mix(edges); c.mix(w.v.size()); c.mix(ini); c.mix(own);
  Hash_ptr h = own ? (edges ? MESH_Hash_Edges(w.m) : MESH_Hash_Faces(w.m)) : Hash_New(ini, aut);
  if (own) { Hash_Set_AutoRemove(h, aut); CHECK(c, h != nullptr, "mesh-table", "none"); if (!h) return; }
  std::map<PV, std::vector<void*>> tab; std::map<void*, int> lk; long cnt = 0;
  std::map<void*, PV> keyof;
  auto make = [&](PV& key) {
    void* e;
    if (edges) { e = ME_New(w.m); MEnt_Set_Volatile(e); ME_Set_Vertex(e, 0, key[0]); ME_Set_Vertex(e, 1, key[1]); }
    else { e = MF_New(w.m); MEnt_Set_Volatile(e); MF_Set_Vertices(e, (int)key.size(), key.data()); }
    lk[e] = 0; keyof[e] = key;
    return e;
  };
  auto newkey = [&] {
    PV k; int n = edges ? 2 : 3 + c.rng.below(3);
    IV ix(w.v.size()); std::iota(ix.begin(), ix.end(), 0); c.rng.shuffle(ix);
    for (int i = 0; i < n && i < (int)ix.size(); i++) k.push_back(w.v[ix[i]]);
    return k;
  };
  auto oldkey = [&] { auto it = tab.begin(); std::advance(it, c.rng.below((int)tab.size())); return it->first; };
  auto drop = [&](bool only_unlocked) {
    long n = 0;
    for (auto it = tab.begin(); it != tab.end();) {
      auto& v = it->second;
      for (size_t i = 0; i < v.size();) if (!only_unlocked || lk[v[i]] == 0) { lk.erase(v[i]); keyof.erase(v[i]); v.erase(v.begin() + i); n++; } else i++;
      it = v.empty() ? tab.erase(it) : std::next(it);
    }
    cnt -= n;
    return n;
  };
  auto full = [&](const char* when) {
    std::vector<void*> want, got;
    for (auto& x : tab) for (void* e : x.second) want.push_back(e);
    List_ptr l = Hash_Entries(h); got = take(l);
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    c.count("oracle_checks");
    if (want != got) { c.fail("entries", "%s: %zu entries, want %zu", when, got.size(), want.size()); return false; }
    for (void* e : got) { bool L = edges ? ME_IsLocked(e) : MF_IsLocked(e); CHECK(c, L == (lk[e] > 0), "table-lock", "%s", when); }
    return true;
  };
  int n = 60 + c.rng.below(400);
  bool ok = true;
  for (int s = 0; s < n && ok && !c.failed(); s++) {
    c.count("events");
    switch (c.rng.below(9)) {
      case 0: case 1: case 2: case 3: {
        PV k = c.rng.chance(0.15) && !tab.empty() ? oldkey() : newkey();
        if (!edges && k.size() < 3) break;
        void* e = make(k);
        bool chk = c.rng.chance(0.5);
        if (!chk && tab.count(k)) chk = true;
        long have = Hash_Num_Entries(h);
        // an entry the key already has may be given up before the look-up when it is not locked
        void* r = chk ? Hash_ChknAdd(h, e, (unsigned)k.size(), k.data()) : Hash_Add(h, e, (unsigned)k.size(), k.data());
        long now = Hash_Num_Entries(h);
        if (now < have || (now == have && r == h)) {
          CHECK(c, Hash_AutoRemove(h), "autoremove", "entries went from %ld to %ld without being asked", have, now);
          long d = drop(true); c.count("removed", d);
        }
        auto it = tab.find(k);
        if (chk && it != tab.end()) {
          CHECK(c, r == it->second[0], "chknadd", "an entry of the same key is there but another was %s", r == h ? "added" : "given");
          lk.erase(e); keyof.erase(e); if (r != h) { if (edges) ME_Delete(e, 0); else MF_Delete(e, 0); }
        } else {
          CHECK(c, r == h, "add", "not added");
          tab[k].push_back(e); cnt++;
        }
        CHECK(c, Hash_Num_Entries(h) == cnt, "count", "%d entries, want %ld", Hash_Num_Entries(h), cnt);
        if (c.rng.chance(0.5) && tab.count(k) && tab[k].back() == e) { if (edges) ME_Lock(e); else MF_Lock(e); lk[e] = 1; }
        break; }
      case 4: if (!tab.empty()) {
        PV k = oldkey(); void* e = Hash_Entry(h, (unsigned)k.size(), k.data());
        CHECK(c, e == tab[k][0], "entry", "key of %zu vertices: %s", k.size(), e ? "another entry" : "nothing"); } break;
      case 5: {
        PV k = newkey(); if (c.rng.chance(0.4) && !tab.empty()) { k = oldkey(); std::reverse(k.begin(), k.end()); if (c.rng.chance(0.3)) k.pop_back(); }
        void* e = Hash_Entry(h, (unsigned)k.size(), k.data());
        auto it = tab.find(k);
        CHECK(c, e == (it == tab.end() ? nullptr : it->second[0]), "entry", "key of %zu vertices: %s", k.size(), e ? "an entry" : "nothing"); } break;
      case 6: if (!lk.empty()) {
        auto it = lk.begin(); std::advance(it, c.rng.below((int)lk.size()));
        if (it->second == 0 || c.rng.chance(0.4)) { if (edges) ME_Lock(it->first); else MF_Lock(it->first); it->second++; if (it->second > 15) it->second = 15; }
        else if (it->second < 15) { if (edges) ME_UnLock(it->first); else MF_UnLock(it->first); it->second--; } } break;
      case 7: if (c.rng.chance(0.3)) {
        long d = Hash_Remove_Unused(h), want = drop(true);
        CHECK(c, d == want, "remove-unused", "%ld removed, want %ld", d, want); c.count("removed", want); ok = full("after removing"); }
        else if (c.rng.chance(0.3)) { aut = c.rng.below(2); Hash_Set_AutoRemove(h, aut); CHECK(c, !!Hash_AutoRemove(h) == !!aut, "autoremove", "set to %d", aut); CHECK(c, Hash_Num_Entries(h) == cnt, "count", "changed"); }
        break;
      case 8: if (c.rng.chance(0.2)) ok = full("now"); break;
    }
  }
  full("at the end");
  for (auto& x : tab) { PV k = x.first; CHECK(c, Hash_Entry(h, (unsigned)k.size(), k.data()) == x.second[0], "entry", "at the end"); }
  c.nontrivial = tab.size() > 4;
  c.mix(tab.size()); c.mix(cnt);
  if (!own) Hash_Delete(h);
  MESH_Delete(w.m);
}
