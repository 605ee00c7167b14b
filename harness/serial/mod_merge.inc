// ------------------------------------------------------------------ C11
// sets of vertices, edges and faces, as plain containers of handles
struct SetMon {
  Ctx& c; Mesh_ptr m; std::vector<void*> s; std::vector<std::set<void*>> want;
  SetMon(Ctx& c_, Mesh_ptr m_) : c(c_), m(m_) {
    int n = c.rng.below(4);
    for (int k = 0; k < n; k++) {
      int d = c.rng.below(3); std::string nm = "set" + std::to_string(k);
      void* q = MSet_New(m, nm.c_str(), (MType)d); std::set<void*> w; int i = 0; void* p;
      while ((p = d == 0 ? MESH_Next_Vertex(m, &i) : d == 1 ? MESH_Next_Edge(m, &i) : MESH_Next_Face(m, &i))) if (c.rng.chance(0.4)) { MSet_Add(q, p); w.insert(p); }
      s.push_back(q); want.push_back(w);
    }
  }
  void merged(void* del, void* kept) { for (auto& w : want) if (w.erase(del)) w.insert(kept); }
  void check(const char* op) {
    for (size_t k = 0; k < s.size(); k++) {
      std::set<void*> g; int i = 0, n = 0; void* p; while ((p = MSet_Next_Entry(s[k], &i))) { g.insert(p); n++; }
      CHECK(c, g == want[k] && n == (int)g.size(), std::string(op) + ".sets", "mesh set has %d entries, should have %zu, the kept in place of the merged away entities", n, want[k].size());
    }
  }
};

// cut a mesh in two along the boundary of a group of elements, glue it again
CASE(C11, glue, 5) {
  GenOpt o; o.size = c.rng.chance(0.6) ? 2 : 3; o.manifold = !c.rng.chance(0.25);
  Model m = gen(c.rng, o); m.xe.clear();
  int n0 = (int)m.x.size();
  // group B: a connected or scattered set of elements
  int ne = (int)(m.dim == 3 ? m.r.size() : m.f.size());
  std::vector<char> B(ne, 0); double p = c.rng.unit(); for (int i = 0; i < ne; i++) B[i] = c.rng.chance(p);
  auto fvs = [&](const MRegM& R) { std::set<int> s; for (auto& f : reg_faces(R)) s.insert(f.begin(), f.end()); return s; };
  std::set<int> va, vb;
  if (m.dim == 3) { for (int i = 0; i < ne; i++) for (int v : fvs(m.r[i])) (B[i] ? vb : va).insert(v); for (auto& F : m.f) va.insert(F.v.begin(), F.v.end()); }
  else for (int i = 0; i < ne; i++) (B[i] ? vb : va).insert(m.f[i].v.begin(), m.f[i].v.end());
  std::map<int, int> dup; Model q = m;
  q.vgdim.resize(n0, 4); q.vgid.resize(n0, 0);
  for (int v : vb) if (va.count(v)) { dup[v] = (int)q.x.size(); q.x.push_back(q.x[v]); q.vgdim.push_back(4); q.vgid.push_back(0); }
  auto ren = [&](IV& f) { for (int& v : f) if (dup.count(v)) v = dup[v]; };
  for (int i = 0; i < ne; i++) if (B[i]) { if (m.dim == 3) { ren(q.r[i].v); for (auto& f : q.r[i].fv) ren(f); } else ren(q.f[i].v); }
  if (dup.empty()) { c.note("nothing to glue"); return; }
  RepType rep = F1;
  MView w = build(c.rng, q, rep, rand_build(c.rng, rep, m.dim));
  Mod M(c, w);
  if (c.rng.chance(0.5)) M.classify_all();
  SetMon S(c, w.m);
  // pairs still to be merged
  std::vector<int> vl; for (auto& d : dup) vl.push_back(d.first);
  c.rng.shuffle(vl);
  std::map<int, int> back; for (auto& d : dup) back[d.second] = d.first;
  std::unordered_map<void*, int> nm = w.vid; for (auto& z : nm) { auto it = back.find(z.second); if (it != back.end()) z.second = it->second; }
  std::vector<void*> kept(q.x.size()); for (size_t i = 0; i < w.v.size(); i++) kept[i] = w.v[i];
  std::map<EK, PV> ep; std::map<IV, PV> fp; int i = 0; void* h;
  auto ekey = [&](void* e) { int a = nm[ME_Vertex(e, 0)], b = nm[ME_Vertex(e, 1)]; return ek(a, b); };
  auto fkey = [&](void* f) { IV k; for (void* v : take(MF_Vertices(f, 1, 0))) k.push_back(nm[v]); return sorted(k); };
  while ((h = MESH_Next_Edge(w.m, &i))) ep[ekey(h)].push_back(h);
  i = 0; while ((h = MESH_Next_Face(w.m, &i))) fp[fkey(h)].push_back(h);
  PV dead; long nv = 0, nE = 0, nF = 0, refused = 0;
  auto cls = [&](int d, void* x) { return d == 0 ? Cl(MV_GEntDim(x), MV_GEntID(x)) : d == 1 ? Cl(ME_GEntDim(x), ME_GEntID(x)) : Cl(MF_GEntDim(x), MF_GEntID(x)); };
  auto may = [&](int d, void* x, void* y) { Cl a = cls(d, x), b = cls(d, y); return d == 0 ? a == b : a.first == b.first ? a.second == b.second : a.first < b.first; };
  auto counts = [&] { return std::array<int,4>{MESH_Num_Vertices(w.m), MESH_Num_Edges(w.m), MESH_Num_Faces(w.m), MESH_Num_Regions(w.m)}; };
  auto merge = [&](int d, void* a, void* b) {
    if (c.rng.chance(0.5)) std::swap(a, b);
    const char* op = d == 0 ? "MVs_Merge" : d == 1 ? "MEs_Merge" : "MFs_Merge";
    auto call = [&](int tf) { return d == 0 ? MVs_Merge(a, b, tf) : d == 1 ? MEs_Merge(a, b, tf) : MFs_Merge(a, b, tf); };
    auto n1 = counts(); Cl ca = cls(d, a);
    void* r = nullptr; bool tf = c.rng.chance(0.4);
    if (tf) {
      bool ok = may(d, a, b); r = call(1);
      CHECK(c, (r != nullptr) == ok, std::string(op) + ".topoflag", "%s with model entities %s and %s", r ? "merged" : "refused", sk(ca).c_str(), ok ? "compatible" : "incompatible");
      if (!r) { refused++; CHECK(c, counts() == n1 && MEnt_Dim(b) == d, std::string(op) + ".refused", "a refused merge changed the mesh"); }
    }
    if (!r) r = call(0);
    CHECK(c, r == a, std::string(op) + ".result", "returned %s", r == b ? "the merged away entity" : "something else");
    auto n2 = counts(); n1[d]--;
    CHECK(c, n1 == n2, std::string(op) + ".counts", "number of entities %d %d %d %d", n2[0], n2[1], n2[2], n2[3]);
    CHECK(c, MEnt_Dim(a) == d && MEnt_Dim(b) == MDELETED, std::string(op) + ".alive", "kept entity has dimension %d, merged away one %d", (int)MEnt_Dim(a), (int)MEnt_Dim(b));
    CHECK(c, cls(d, a) == ca, std::string(op) + ".class", "classification of the kept entity changed");
    S.merged(b, a); dead.push_back(b);
    return a;
  };
  auto early = [&](int d, void* a, void* b) {   // vertices or edges below are not merged yet: refused
    auto n1 = counts(); void* r = d == 1 ? MEs_Merge(a, b, 0) : MFs_Merge(a, b, 0); refused++;
    CHECK(c, !r && counts() == n1, d == 1 ? "MEs_Merge.early" : "MFs_Merge.early", "merged %s whose boundaries are not merged", d == 1 ? "edges" : "faces");
  };
  std::set<int> done; std::set<EK> edone; std::set<IV> fdone;
  bool lazy = c.rng.chance(0.3);                     // all vertices first, then edges, then faces
  for (size_t t = 0; t <= vl.size() && !c.failed(); t++) {
    if (t < vl.size()) { int v = vl[t]; kept[v] = merge(0, w.v[v], w.v[dup[v]]); nv++; done.insert(v); }
    if (lazy && t < vl.size()) continue;
    for (auto& e : ep) if (e.second.size() == 2 && !edone.count(e.first)) {
      bool rdy = done.count(e.first.first) && done.count(e.first.second);
      if (rdy && (t == vl.size() || c.rng.chance(0.6))) { e.second = {merge(1, e.second[0], e.second[1])}; nE++; edone.insert(e.first); }
      else if (!rdy && c.rng.chance(0.03)) early(1, e.second[0], e.second[1]);
    }
    for (auto& f : fp) if (f.second.size() == 2 && !fdone.count(f.first)) {
      IV cy = M.w.Fc(f.second[0]); bool rdy = true, vm = true; for (int& v : cy) { v = back.count(v) ? back[v] : v; vm &= done.count(v) > 0; }
      int me = 0; for (size_t k = 0; k < cy.size(); k++) { EK x = ek(cy[k], cy[(k+1)%cy.size()]); if (!edone.count(x)) { rdy = false; me++; } }
      if (rdy && (t == vl.size() || c.rng.chance(0.6))) { f.second = {merge(2, f.second[0], f.second[1])}; nF++; fdone.insert(f.first); }
      else if (vm && me > 0 && c.rng.chance(0.03)) early(2, f.second[0], f.second[1]);
    }
  }
  S.check("merge");
  if (!c.failed()) {
    MView z; z.m = w.m; z.rep = rep; for (int v = 0; v < n0; v++) z.v.push_back(kept[v]);
    z.setv(); verify(c, z, m, VF_COMMON | VF_ORIENT | VF_IDS | VF_TEMPLATE | VF_COORDS, "C11.");
  }
  for (void* d : dead) MEnt_Delete(d, 0);
  c.count("vertex_merges", nv); c.count("edge_merges", nE); c.count("face_merges", nF); c.count("refused_merges", refused);
  c.nontrivial = true; c.mix(model_hash(m)); c.note("%s: glued %ld vertices %ld edges %ld faces", m.kind.c_str(), nv, nE, nF);
  MESH_Delete(w.m);
}

// collapses
struct Collapse {
  bool ok = false; int a, b; Snap s;
  // images under d -> k
  static IV image(const IV& cy, int d, int k) { IV o; for (int v : cy) { if (v == d) v = k; if (o.empty() || o.back() != v) o.push_back(v); } if (o.size() > 1 && o.front() == o.back()) o.pop_back(); return o; }
  std::set<std::vector<IV>> dreg; std::set<IV> dface;
  std::map<IV, std::vector<IV>> fgrp;                    // image key -> faces
  std::map<EK, std::vector<EK>> egrp;
  // is the result a proper mesh
  bool plan(const Snap& s_, int a_, int b_, const char*& why) {
    s = s_; a = a_; b = b_; EK e = ek(a, b); int d = a, k = b;
    auto adj = [&](const IV& cy) { for (size_t i = 0; i < cy.size(); i++) if (ek(cy[i], cy[(i+1)%cy.size()]) == e) return true; return false; };
    for (auto& f : s.f) {
      bool both = std::count(f.first.begin(), f.first.end(), a) && std::count(f.first.begin(), f.first.end(), b);
      if (both && !adj(f.second.cy)) { why = "face"; return false; }
      if (both && f.first.size() == 3) { dface.insert(f.first); continue; }
      IV im = image(f.second.cy, d, k); IV key = sorted(im);
      if (std::adjacent_find(key.begin(), key.end()) != key.end() || key.size() < 3) { why = "face"; return false; }
      fgrp[key].push_back(f.first);
    }
    std::map<IV, std::vector<IV>> use;                  // surviving regions: outward image cycles per face key
    for (auto& r : s.r) {
      std::set<int> vs; bool hase = false; for (auto& z : r.second.f) { vs.insert(z.first.begin(), z.first.end()); hase |= adj(z.second); }
      if (vs.count(a) && vs.count(b) && !hase) { why = "region"; return false; }
      std::map<IV, int> cnt; std::map<EK, int> ec; int nf = 0; std::vector<std::pair<IV, IV>> im;
      for (auto& z : r.second.f) { if (dface.count(z.first)) continue; IV q = image(z.second, d, k); cnt[sorted(q)]++; nf++; im.push_back({sorted(q), q}); for (size_t i = 0; i < q.size(); i++) ec[{q[i], q[(i+1)%q.size()]}]++; }
      bool deg = false; for (auto& q : cnt) deg |= q.second > 1;
      if (hase && (vs.size() == 4 || deg)) {
        for (auto& q : cnt) if (q.second != 2) { why = "degenerate"; return false; }
        dreg.insert(r.first); continue;
      }
      if (deg || nf < 4) { why = "flat"; return false; }
      if (hase) for (auto& q : ec) if (q.second != 1 || !ec.count({q.first.second, q.first.first})) { why = "open"; return false; }
      for (auto& q : im) use[q.first].push_back(q.second);
    }
    for (auto& g : fgrp) {
      if (g.second.size() > 2) { why = "faces"; return false; }
      if (g.second.size() == 2) {
        bool com = false; for (auto& r : dreg) com |= std::count(r.begin(), r.end(), g.second[0]) && std::count(r.begin(), r.end(), g.second[1]);
        if (!com) { why = "faces"; return false; }
      }
      auto it = use.find(g.first);
      if (it != use.end() && (it->second.size() > 2 || (it->second.size() == 2 && cyc(it->second[0], it->second[1]) != -1))) { why = "sides"; return false; }
    }
    for (auto& q : s.e) {
      if (q.first == e) continue;
      int x = q.first.first, y = q.first.second; if (x == d) x = k; if (y == d) y = k;
      egrp[ek(x, y)].push_back(q.first);
    }
    for (auto& g : egrp) {
      if (g.second.size() > 2) { why = "edges"; return false; }
      if (g.second.size() == 2) { int x = g.first.first == k ? g.first.second : g.first.first; if (!dface.count(sorted({a, b, x}))) { why = "link"; return false; } }
    }
    return ok = true;
  }
};

CASE(C11, collapse, 6) {
  GenOpt o; o.size = c.rng.range(2, 3); o.manifold = !c.rng.chance(0.2);
  bool simp = c.rng.chance(0.5); Model m;
  do m = gen(c.rng, o); while (simp && m.kind.compare(0, 3, "tet") && m.kind.compare(0, 3, "tri"));
  m.xe.clear();
  MView w = build(c.rng, m, F1, rand_build(c.rng, F1, m.dim));
  Mod M(c, w);
  // a classification: the boundary on model faces and edges, the rest inside; sometimes random, sometimes none
  int mode = c.rng.below(3); std::string h; void* p; int i;
  if (mode == 1) M.classify_all();
  if (mode == 2) {
    int top = m.dim;
    i = 0; while ((p = MESH_Next_Region(w.m, &i))) { MR_Set_GEntDim(p, 3); MR_Set_GEntID(p, 1); }
    i = 0; while ((p = MESH_Next_Face(w.m, &i))) { bool bd = m.dim == 2 || take(MF_Regions(p)).size() < 2; MF_Set_GEntDim(p, bd ? 2 : 3); MF_Set_GEntID(p, 1); }
    i = 0; while ((p = MESH_Next_Edge(w.m, &i))) { PV fs = take(ME_Faces(p)); bool bd = m.dim == 2 && fs.size() < 2; if (m.dim == 3) for (void* f : fs) bd |= MF_GEntDim(f) == 2; int g = bd ? top - 1 : top; ME_Set_GEntDim(p, g); ME_Set_GEntID(p, 1); }
    i = 0; while ((p = MESH_Next_Vertex(w.m, &i))) { bool bd = false; for (void* e : take(MV_Edges(p))) bd |= ME_GEntDim(e) < top; MV_Set_GEntDim(p, bd ? (c.rng.chance(0.2) ? 0 : top - 1) : top); MV_Set_GEntID(p, 1); }
    M.s = M.read();
  }
  if (c.rng.chance(0.4)) {       // global IDs decide between equals
    int n = 1000; PV all; i = 0; while ((p = MESH_Next_Vertex(w.m, &i))) all.push_back(p); i = 0; while ((p = MESH_Next_Edge(w.m, &i))) all.push_back(p); i = 0; while ((p = MESH_Next_Face(w.m, &i))) all.push_back(p);
    c.rng.shuffle(all); for (void* q : all) MEnt_Set_GlobalID(q, ++n);
  }
  SetMon S(c, w.m); for (auto& q : S.want) q.clear();
  for (void* q : S.s) { PV l; int j = 0; while ((p = MSet_Next_Entry(q, &j))) l.push_back(p); for (void* x : l) MSet_Rem(q, x); }
  int n = c.rng.range(1, 6); long tried = 0, rej = 0, refused = 0;
  for (int t = 0; t < 8 * n && (int)h.size() < n && !M.s.e.empty() && !c.failed(); t++) {
    EK k = M.pickkey(M.s.e); void* e = M.edge_h(k); int va = M.w.V(ME_Vertex(e, 0)), vb = M.w.V(ME_Vertex(e, 1));
    int tf = mode == 2 && c.rng.chance(0.6); int want_keep = -1; void* vk = nullptr; tried++;
    if (c.rng.chance(0.5)) { want_keep = c.rng.chance(0.5) ? va : vb; vk = M.w.v[want_keep]; }
    // the documented choice of the vertex kept
    auto external = [&](int v) {
      for (void* q : take(MV_Edges(M.w.v[v]))) if (take(ME_Faces(q)).size() < 2) return true;
      for (void* f : take(MV_Faces(M.w.v[v]))) if (take(MF_Regions(f)).size() == 1) return true;
      return false;
    };
    int must = want_keep; bool refuse = false;
    if (tf) {
      Cl ca = M.s.v[va].second, cb = M.s.v[vb].second;
      if (ca.first == cb.first) { if (ca.second != cb.second) refuse = true; }
      else { int low = ca.first < cb.first ? va : vb; if (want_keep >= 0 && want_keep != low) refuse = true; must = low; }
    } else if (want_keep < 0) { bool xa = external(va), xb = external(vb); if (xa != xb) must = xa ? va : vb; }
    Collapse P; const char* why = "";
    int kk = must >= 0 ? must : vb, dd = kk == va ? vb : va;
    if (!P.plan(M.s, dd, kk, why)) { rej++; c.count((std::string("unsuitable_") + why).c_str()); continue; }
    // all handles
    std::map<void*, EK> eh; std::map<void*, IV> fh; std::map<void*, std::vector<IV>> rh;
    i = 0; while ((p = MESH_Next_Edge(w.m, &i))) eh[p] = M.w.E(p);
    i = 0; while ((p = MESH_Next_Face(w.m, &i))) fh[p] = M.w.F(p);
    i = 0; while ((p = MESH_Next_Region(w.m, &i))) { std::vector<IV> q; for (void* f : take(MR_Faces(p))) q.push_back(fh[f]); std::sort(q.begin(), q.end()); rh[p] = q; }
    auto nreg = [&](const IV& f) { int q = 0; for (auto& r : M.s.r) q += r.second.f.count(f) && !P.dreg.count(r.first); return q; };
    // only compatible merges when model topology is to be respected
    if (tf && !refuse) {
      bool fit = true;
      for (auto& g : P.egrp) if (g.second.size() == 2) { Cl x = M.s.e[g.second[0]], y = M.s.e[g.second[1]]; fit &= x == y || (x.first < 3) != (y.first < 3); }
      for (auto& g : P.fgrp) if (g.second.size() == 2) { Cl x = M.s.f[g.second[0]].cl, y = M.s.f[g.second[1]].cl; bool ex = !nreg(g.second[0]), ey = !nreg(g.second[1]); fit &= x == y || (ex && !ey && x.first < y.first) || (ey && !ex && y.first < x.first); }
      if (!fit) { c.count("unsuitable_class"); continue; }
    }
    // entities that will be merged, in sets
    for (size_t q = 0; q < S.s.size(); q++) {
      PV l; int j = 0; while ((p = MSet_Next_Entry(S.s[q], &j))) l.push_back(p); for (void* x : l) MSet_Rem(S.s[q], x); S.want[q].clear();
      int d = MSet_EntDim(S.s[q]);
      auto add = [&](void* x) { if (c.rng.chance(0.5)) { MSet_Add(S.s[q], x); S.want[q].insert(x); } };
      if (d == 1) for (auto& x : eh) if (x.second != k) add(x.first);
      if (d == 2) for (auto& x : fh) if (!P.dface.count(x.second)) add(x.first);
    }
    List_ptr del = nullptr, mer = nullptr;
    void* r = ME_Collapse(e, vk, tf, &del, &mer);
    if (refuse) {
      refused++;
      CHECK(c, !r, "ME_Collapse.refuse", "collapsed against the model topology"); if (r) break;
      Snap g = M.read(); M.same(g, M.s, "ME_Collapse.refused"); h += "r"; continue;
    }
    CHECK(c, r == M.w.v[va] || r == M.w.v[vb], "ME_Collapse.result", "returned neither vertex of the edge"); if (c.failed()) break;
    int keep = M.w.V(r), gone = keep == va ? vb : va;
    if (must >= 0) CHECK(c, keep == must, "ME_Collapse.keep", "kept vertex %d instead of %d (%s%s)", keep, must, want_keep >= 0 ? "asked for" : "preferred", tf ? ", topology" : "");
    PV dl = take(del), ml = take(mer);
    // pairs
    std::map<void*, void*> pair; for (size_t q = 0; q + 1 < ml.size(); q += 2) pair[ml[q]] = ml[q+1];
    CHECK(c, ml.size() == 2 * pair.size(), "ME_Collapse.pairs", "%zu entries for %zu pairs", ml.size(), pair.size());
    CHECK(c, pair.count(M.w.v[gone]) && pair[M.w.v[gone]] == r, "ME_Collapse.pairs", "the vertices are not a merged pair");
    std::set<void*> ds(dl.begin(), dl.end());
    CHECK(c, ds.size() == dl.size(), "ME_Collapse.deleted", "%zu deleted entities listed, %zu different", dl.size(), ds.size());
    // expected: from the images, the kept entity of each merged pair as reported
    Snap want; want.v = M.s.v; want.v.erase(gone); std::set<void*> wd = {M.w.v[gone], e};
    auto edge_of = [&](const EK& z) { for (auto& x : eh) if (x.second == z) return x.first; return (void*)nullptr; };
    auto face_of = [&](const IV& z) { for (auto& x : fh) if (x.second == z) return x.first; return (void*)nullptr; };
    Collapse Q; Q.plan(M.s, gone, keep, why);
    size_t np = 1;
    for (auto& g : Q.egrp) {
      EK z = g.second[0];
      if (g.second.size() == 2) {
        np++; void *x = edge_of(g.second[0]), *y = edge_of(g.second[1]); bool xd = pair.count(x) && pair[x] == y, yd = pair.count(y) && pair[y] == x;
        CHECK(c, xd != yd, "ME_Collapse.pairs", "edges %s and %s coincide but are not a merged pair", sk(g.second[0]).c_str(), sk(g.second[1]).c_str());
        if (xd) z = g.second[1];
        wd.insert(xd ? x : y); S.merged(xd ? x : y, xd ? y : x);
        Cl cx = M.s.e[g.second[0]], cy = M.s.e[g.second[1]]; auto bd = [](const Cl& q) { return q.first == 1 || q.first == 2; };
        if (cx.first == 4 && cy.first == 4 && m.dim == 2) {
          int fx = 0, fy = 0; for (auto& f : M.s.f) { auto& q = f.second.cy; for (size_t j = 0; j < q.size(); j++) { EK a = ek(q[j], q[(j+1)%q.size()]); fx += a == g.second[0]; fy += a == g.second[1]; } }
          if ((fx == 1) != (fy == 1)) CHECK(c, xd ? fy == 1 : fx == 1, "ME_Collapse.edgepref", "kept the inner edge, not the one with a single face");
        }
        if (cx.first < 4 && cy.first < 4 && bd(cx) != bd(cy)) CHECK(c, bd(xd ? cy : cx), "ME_Collapse.edgepref", "kept the edge inside the domain, not the one on the boundary");
      }
      want.e[g.first] = M.s.e[z];
    }
    for (auto& f : Q.dface) wd.insert(face_of(f));
    std::map<IV, IV> kf;
    for (auto& g : Q.fgrp) {
      IV z = g.second[0];
      if (g.second.size() == 2) {
        np++; void *x = face_of(g.second[0]), *y = face_of(g.second[1]); bool xd = pair.count(x) && pair[x] == y, yd = pair.count(y) && pair[y] == x;
        CHECK(c, xd != yd, "ME_Collapse.pairs", "faces %s and %s coincide but are not a merged pair", sk(g.second[0]).c_str(), sk(g.second[1]).c_str());
        if (xd) z = g.second[1];
        wd.insert(xd ? x : y); S.merged(xd ? x : y, xd ? y : x);
        int nx = nreg(g.second[0]), ny = nreg(g.second[1]);
        if (!nx != !ny) CHECK(c, xd ? !ny : !nx, "ME_Collapse.facepref", "kept the inner face, not the external one");
      }
      SF F = M.s.f[z]; F.cy = Collapse::image(F.cy, gone, keep); want.f[g.first] = F;
    }
    CHECK(c, pair.size() == np, "ME_Collapse.pairs", "%zu merged pairs reported, %zu expected", pair.size(), np);
    for (auto& q : M.s.r) {
      if (Q.dreg.count(q.first)) { for (auto& x : rh) if (x.second == q.first) wd.insert(x.first); continue; }
      SR R; R.cl = q.second.cl; for (auto& z : q.second.f) if (!Q.dface.count(z.first)) { IV cy = Collapse::image(z.second, gone, keep); R.f[sorted(cy)] = cy; }
      want.r[rkey(R)] = R;
    }
    CHECK(c, ds == wd, "ME_Collapse.deleted", "%zu deleted entities listed, %zu expected", ds.size(), wd.size());
    for (void* x : ds) if (wd.count(x)) CHECK(c, MEnt_Dim(x) == MDELETED, "ME_Collapse.marked", "an entity reported as deleted is not marked so");
    if (c.failed()) break;
    Snap g = M.read(); M.same(g, want, "ME_Collapse"); S.check("ME_Collapse");
    if (c.failed()) break;
    M.s = want; M.forgetv(gone);
    bool now = c.rng.chance(0.7); c.count("entities_deleted", (long)ds.size()); c.count("pairs_merged", (long)np);
    for (void* x : dl) if (now || MEnt_Dim(x) == MDELETED) MEnt_Delete(x, 0);
    h += "c";
  }
  if (!c.failed() && h.find('c') != std::string::npos) M.full_check(M.s, "C11");
  c.count("collapse_candidates", tried); c.count("collapses_refused", refused); c.count("collapses", (long)std::count(h.begin(), h.end(), 'c'));
  c.nontrivial = h.find('c') != std::string::npos; c.mix(model_hash(m)); c.mixs(h); c.note("%s: %s", m.kind.c_str(), h.c_str());
  MESH_Delete(w.m);
}
