// ------------------------------------------------------------------ C30: the primitives that edit the boundary of one entity
extern "C" void MR_Update_ElementType(MRegion_ptr r);
static std::vector<EK> cyc_edges(const IV& cy) { std::vector<EK> o; for (size_t i = 0; i < cy.size(); i++) o.push_back(ek(cy[i], cy[(i+1)%cy.size()])); return o; }
// faces of the snapshot stay told apart by their vertices
static bool usable(const Snap& s) {
  for (auto& f : s.f) { if (f.second.cy.size() < 3 || f.second.cy.size() > 20 || f.first != sorted(f.second.cy)) return false; IV k = f.first; if (std::unique(k.begin(), k.end()) != k.end()) return false; }
  return true;
}
struct Edit {
  Mod& M; Ctx& c; std::string& h;
  Edit(Mod& m, std::string& hh) : M(m), c(m.c), h(hh) {}
  int newv(V3 x, Cl cl) { void* v = MV_New(M.w.m); double y[3] = {x[0], x[1], x[2]}; MV_Set_Coords(v, y); MV_Set_GEntDim(v, cl.first); MV_Set_GEntID(v, cl.second); return M.addv(v); }
  void* newe(int a, int b, Cl cl) { void* e = ME_New(M.w.m); int s = c.rng.below(2); ME_Set_Vertex(e, s, M.w.v[a]); ME_Set_Vertex(e, !s, M.w.v[b]); ME_Set_GEntDim(e, cl.first); ME_Set_GEntID(e, cl.second); return e; }
  // a face over existing edges, started anywhere; the cycle it was given is returned in cy
  void* newf(IV& cy, Cl cl) {
    if (c.rng.chance(0.5)) cy = rev(cy);
    std::rotate(cy.begin(), cy.begin() + c.rng.below((int)cy.size()), cy.end());
    PV es; std::vector<int> ds;
    for (size_t i = 0; i < cy.size(); i++) { void* e = M.edge_h(ek(cy[i], cy[(i+1)%cy.size()])); es.push_back(e); ds.push_back(ME_Vertex(e, 0) == M.w.v[cy[i]]); }
    void* f = MF_New(M.w.m); MF_Set_Edges(f, (int)es.size(), es.data(), ds.data()); MF_Set_GEntDim(f, cl.first); MF_Set_GEntID(f, cl.second); return f;
  }
  static int dirof(const IV& cy, const IV& out) { return cyc(cy, out) == 1 ? 1 : 0; }
  void same(const Snap& want, const char* op) { Snap g = M.read(); M.same(g, want, op); M.s = want; }

  // replace a run of edges between a and b by another one in all the faces that use it
  bool chain() {
    Snap want = M.s; EK k = M.pickkey(want.e);
    std::map<int, std::vector<int>> nb; for (auto& e : want.e) { nb[e.first.first].push_back(e.first.second); nb[e.first.second].push_back(e.first.first); }
    IV p = {k.first, k.second};
    auto grow = [&](bool back) { while (c.rng.chance(0.8)) { int x = back ? p.back() : p.front(); if (nb[x].size() != 2) break; int y = back ? p[p.size()-2] : p[1]; int z = nb[x][0] == y ? nb[x][1] : nb[x][0]; if (std::count(p.begin(), p.end(), z)) break; if (back) p.push_back(z); else p.insert(p.begin(), z); } };
    grow(true); grow(false);
    int nold = (int)p.size() - 1, nnu = c.rng.range(1, 5), a = p.front(), b = p.back();
    if ((nnu == 1 && nold == 1) || (nold > 1 && want.e.count(ek(a, b)))) return false;
    std::vector<IV> fk; for (auto& f : want.f) { auto es = cyc_edges(f.second.cy); if (std::count(es.begin(), es.end(), k)) fk.push_back(f.first); }
    for (auto& f : fk) { int n = (int)f.size(); if (nold >= n - 1 || n - nold + nnu < 3 || n - nold + nnu > 20) return false; for (int u : p) if (!std::count(f.begin(), f.end(), u)) return false; }
    for (auto& f : want.f) if (!std::count(fk.begin(), fk.end(), f.first)) for (size_t i = 1; i + 1 < p.size(); i++) if (std::count(f.first.begin(), f.first.end(), p[i])) return false;
    // counterpart: drop the old inner vertices, then put the new ones in
    Cl cl = want.e[k]; IV inner(p.begin() + 1, p.end() - 1), add; V3 xa = want.v[a].first, xb = want.v[b].first;
    auto drop = [&](const IV& cy) { IV o; for (int u : cy) if (!std::count(inner.begin(), inner.end(), u)) o.push_back(u); return o; };
    std::vector<IV> fk2;
    std::vector<void*> hf; for (auto& f : fk) hf.push_back(M.face_h(f));
    for (auto& key : fk) { SF F = want.f[key]; want.f.erase(key); F.cy = drop(F.cy); fk2.push_back(sorted(F.cy)); if (want.f.count(sorted(F.cy))) return false; want.f[sorted(F.cy)] = F; M.sub_face(want, key, [&](const IV& out) { return std::vector<IV>{drop(out)}; }); }
    PV olde; for (int i = 0; i < nold; i++) { olde.push_back(M.edge_h(ek(p[i], p[i+1]))); want.e.erase(ek(p[i], p[i+1])); }
    for (int u : inner) want.v.erase(u);
    want.e[ek(a, b)] = cl;
    PV nue; for (int i = 1; i < nnu; i++) { V3 x = xa + ((double)i / nnu) * (xb - xa); int v = newv(x, cl); add.push_back(v); want.v[v] = {x, cl}; }
    M.ins(want, a, b, add);
    { int q = a; for (int v : add) { nue.push_back(newe(q, v, cl)); q = v; } nue.push_back(newe(q, b, cl)); }
    std::vector<int> ord(hf.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = (int)i; c.rng.shuffle(ord);
    for (int i : ord) {
      void* f = hf[i]; PV fe = take(MF_Edges(f, 1, 0)); int ne = (int)fe.size();
      PV o = olde, nu = nue; if (c.rng.chance(0.5)) std::reverse(nu.begin(), nu.end());
      // where the run starts in the face
      int st = -1; bool fwd = true;
      for (int s = 0; s < ne; s++) { bool x = true, y = true; for (int j = 0; j < nold; j++) { x &= fe[(s+j)%ne] == o[j]; y &= fe[(s+j)%ne] == o[nold-1-j]; } if (x || y) { st = s; fwd = x; } }
      CHECK(c, st >= 0, "edges.run", "the edges of a run are not consecutive in a face that uses them");
      if (st < 0) return true;
      if (st + nold > ne) c.count("runs_across_the_start");
      if (c.rng.chance(0.5)) { c.count("replace_by_index"); MF_Replace_Edges_i(f, nold, st, nnu, nu.data()); }
      else { c.count("replace_by_list"); if (!fwd) std::reverse(o.begin(), o.end()); if (c.rng.chance(0.3)) std::reverse(o.begin(), o.end()); MF_Replace_Edges(f, nold, o.data(), nnu, nu.data()); }
      if (nold > nnu) c.count("runs_shortened");
    }
    for (void* e : olde) { PV ef = take(ME_Faces(e)); CHECK(c, ef.empty(), "MF_Replace_Edges.upward", "a replaced edge still has %zu faces", ef.size()); PV er = take(ME_Regions(e)); CHECK(c, er.empty(), "MF_Replace_Edges.upward_regions", "a replaced edge still has %zu regions", er.size()); }
    for (void* e : olde) ME_Delete(e, 0);
    for (int u : inner) { MV_Delete(M.w.v[u], 0); M.forgetv(u); }
    std::set<void*> regs; for (void* f : hf) for (void* r : take(MF_Regions(f))) regs.insert(r);
    for (void* r : regs) MR_Update_ElementType(r);
    same(want, "MF_Replace_Edges"); h += "c"; return true;
  }
  // swap the faces 'old' (keys) for faces with the cycles 'nu' (oriented like the first old face seen from its normal side)
  bool faces(const char* op, const std::vector<IV>& old, std::vector<std::pair<IV, Cl>> nu, const Snap& n0, const std::function<std::vector<IV>(const std::map<IV, IV>&)>& outof) {
    Snap want = n0;
    std::set<std::vector<IV>> rs; for (auto& r : M.s.r) if (r.second.f.count(old[0])) rs.insert(r.first);
    PV oh; for (auto& k : old) oh.push_back(M.face_h(k));
    std::vector<void*> rh; for (auto& r : rs) rh.push_back(M.reg_h(r));
    PV nh; for (auto& q : nu) { nh.push_back(newf(q.first, q.second)); want.f[sorted(q.first)] = {q.first, q.second}; }
    std::map<std::vector<IV>, SR> nr; int i = 0;
    for (auto& r : want.r) {
      if (!rs.count(r.first)) { nr.insert(r); continue; }
      SR R = r.second; std::map<IV, IV> o; for (auto& k : old) { o[k] = R.f[k]; R.f.erase(k); }
      for (auto& cy : outof(o)) R.f[sorted(cy)] = cy;
      nr[rkey(R)] = R;
      // the call
      std::vector<int> oi, ni; for (size_t j = 0; j < oh.size(); j++) oi.push_back((int)j); for (size_t j = 0; j < nh.size(); j++) ni.push_back((int)j); c.rng.shuffle(oi); c.rng.shuffle(ni);
      PV a, b; std::vector<int> d; for (int j : oi) a.push_back(oh[j]);
      for (int j : ni) { b.push_back(nh[j]); d.push_back(dirof(nu[j].first, R.f.at(sorted(nu[j].first)))); }
      if (old.size() == 1 && nu.size() == 1 && c.rng.chance(0.6)) { PV rf = take(MR_Faces(rh[i])); int at = (int)(std::find(rf.begin(), rf.end(), oh[0]) - rf.begin()); c.count("replace_face_by_index"); MR_Replace_Face_i(rh[i], at, b[0], d[0]); }
      else { c.count("replace_faces"); MR_Replace_Faces(rh[i], (int)a.size(), a.data(), (int)b.size(), b.data(), d.data()); }
      i++;
    }
    want.r = nr;
    for (void* f : oh) { PV fr = take(MF_Regions(f)); CHECK(c, fr.empty(), std::string(op) + ".upward", "a replaced face still has %zu regions", fr.size()); }
    for (void* f : oh) MF_Delete(f, 0);
    for (auto& e : M.s.e) if (!want.e.count(e.first)) { void* eh = M.edge_h(e.first); PV er = take(ME_Regions(eh)); CHECK(c, er.empty(), std::string(op) + ".upward_edge", "an edge no face of a region uses has %zu regions", er.size()); ME_Delete(eh, 0); }
    same(want, op); return true;
  }
  bool refine() {
    IV k = M.pickkey(M.s.f); SF F = M.s.f[k]; size_t n = F.cy.size(); Snap want = M.s; want.f.erase(k);
    if (n > 3 && c.rng.chance(0.6)) {
      int i = c.rng.below((int)n), j = (i + c.rng.range(2, (int)n - 2)) % (int)n; int a = F.cy[i], b = F.cy[j];
      if (M.s.e.count(ek(a, b))) return false;
      auto halves = [a, b, n](const IV& cy) { IV p, q; size_t i = std::find(cy.begin(), cy.end(), a) - cy.begin(); for (;; i++) { p.push_back(cy[i % n]); if (cy[i % n] == b) break; } for (;; i++) { q.push_back(cy[i % n]); if (cy[i % n] == a) break; } return std::vector<IV>{p, q}; };
      auto hs = halves(F.cy); if (want.f.count(sorted(hs[0])) || want.f.count(sorted(hs[1]))) return false;
      newe(a, b, F.cl); want.e[ek(a, b)] = F.cl;
      h += "d"; return faces("MR_Replace_Faces.split", {k}, {{hs[0], F.cl}, {hs[1], F.cl}}, want, [&](const std::map<IV, IV>& o) { return halves(o.begin()->second); });
    }
    if (n > 8) return false;
    int v = newv(cen(M, k), F.cl); want.v[v] = {cen(M, k), F.cl};
    for (int u : k) { newe(u, v, F.cl); want.e[ek(u, v)] = F.cl; }
    auto fan = [v, n](const IV& cy) { std::vector<IV> o; for (size_t i = 0; i < n; i++) o.push_back({cy[i], cy[(i+1)%n], v}); return o; };
    std::vector<std::pair<IV, Cl>> nu; for (auto& t : fan(F.cy)) nu.push_back({t, F.cl});
    h += "f"; return faces("MR_Replace_Faces.fan", {k}, nu, want, [&](const std::map<IV, IV>& o) { return fan(o.begin()->second); });
  }
  // two faces with the same regions that share one edge nobody else uses become one
  bool coarsen() {
    EK k = M.pickkey(M.s.e); std::vector<IV> fs; for (auto& q : M.s.f) { auto es = cyc_edges(q.second.cy); if (std::count(es.begin(), es.end(), k)) fs.push_back(q.first); }
    if (fs.size() != 2) return false;
    c.rng.shuffle(fs); int com = 0; for (int u : fs[0]) com += std::count(fs[1].begin(), fs[1].end(), u) > 0;
    if (com != 2 || fs[0].size() + fs[1].size() > 20) return false;
    auto joined = [k](const IV& p, IV q) {
      for (int t = 0; t < 2; t++, q = rev(q)) {
        IV o; size_t n = p.size(), m = q.size(), i = 0, j = 0;
        for (size_t t = 0; t < n; t++) if (ek(p[t], p[(t+1)%n]) == k) i = t;
        for (size_t t = 0; t < m; t++) if (ek(q[t], q[(t+1)%m]) == k) j = t;
        if (p[i] == q[j]) continue;
        for (size_t t = 0; t < n; t++) o.push_back(p[(i + 1 + t) % n]);
        for (size_t t = 2; t < m; t++) o.push_back(q[(j + t) % m]);
        return o;
      }
      return IV();
    };
    for (auto& r : M.s.r) { bool a = r.second.f.count(fs[0]), b = r.second.f.count(fs[1]); if (a != b) return false; if (a) { auto &x = r.second.f.at(fs[0]), &y = r.second.f.at(fs[1]); size_t i = 0, j = 0; for (size_t t = 0; t < x.size(); t++) if (ek(x[t], x[(t+1)%x.size()]) == k) i = t; for (size_t t = 0; t < y.size(); t++) if (ek(y[t], y[(t+1)%y.size()]) == k) j = t; if (x[i] == y[j]) return false; } }
    IV N = joined(M.s.f[fs[0]].cy, M.s.f[fs[1]].cy); if (N.empty() || M.s.f.count(sorted(N))) return false;
    Snap want = M.s; Cl cl = want.f[fs[0]].cl; want.f.erase(fs[0]); want.f.erase(fs[1]); want.e.erase(k);
    IV f0 = fs[0], f1 = fs[1];
    h += "j"; return faces("MR_Replace_Faces.join", fs, {{N, cl}}, want, [&](const std::map<IV, IV>& o) { return std::vector<IV>{joined(o.at(f0), o.at(f1))}; });
  }
  bool twin() {
    IV k = M.pickkey(M.s.f); SF F = M.s.f[k]; Snap want = M.s; want.f.erase(k);
    h += "t"; return faces("MR_Replace_Face_i", {k}, {{F.cy, F.cl}}, want, [&](const std::map<IV, IV>& o) { return std::vector<IV>{o.begin()->second}; });
  }
  // take a face away from a region and give it back
  bool remadd() {
    if (M.s.r.empty()) return false;
    auto rk = M.pickkey(M.s.r); SR R = M.s.r[rk]; IV k = rk[c.rng.below((int)rk.size())]; Snap want = M.s; int d = dirof(want.f[k].cy, R.f[k]);
    void *r = M.reg_h(rk), *f = M.face_h(k); size_t other = 0; for (auto& q : want.r) other += q.first != rk && q.second.f.count(k);
    MR_Rem_Face(r, f);
    PV rf = take(MR_Faces(r)); CHECK(c, rf.size() + 1 == rk.size(), "MR_Rem_Face.count", "%zu faces left of %zu", rf.size(), rk.size());
    for (size_t i = 0; i < rf.size(); i++) { IV q = M.w.F(rf[i]); bool in = R.f.count(q) && q != k; CHECK(c, in, "MR_Rem_Face.rest", "the region has a face it did not have or the removed one"); if (!in) break;
      CHECK(c, MR_FaceDir_i(r, (int)i) == dirof(want.f[q].cy, R.f[q]), "MR_Rem_Face.dir", "direction of face %s changed", sk(q).c_str()); }
    PV fr = take(MF_Regions(f)); CHECK(c, fr.size() == other && !std::count(fr.begin(), fr.end(), r), "MR_Rem_Face.upward", "%zu regions of the removed face, should be %zu", fr.size(), other);
    CHECK(c, !MR_UsesEntity(r, f, MFACE), "MR_Rem_Face.uses", "the region still uses the face");
    if (!c.failed()) { MR_Replace_Faces(r, 0, nullptr, 1, &f, &d); same(want, "MR_Rem_Face+add"); }
    h += "r"; return true;
  }
  // a scratch face and a scratch edge, gone again at the end
  bool scratch() {
    Snap want = M.s; int n = c.rng.range(3, 30); IV vs; Cl cl = {M.s.r.empty() ? 2 : 3, 7};
    for (int i = 0; i < n; i++) vs.push_back(newv({3 + 0.1 * i, 4 + 0.01 * i * i, 5}, cl));
    PV es; std::vector<int> ds; for (int i = 0; i < n; i++) { void* e = newe(vs[i], vs[(i+1)%n], cl); es.push_back(e); ds.push_back(ME_Vertex(e, 0) == M.w.v[vs[i]]); }
    void* f = MF_New(M.w.m); MF_Set_GEntDim(f, cl.first); MF_Set_GEntID(f, cl.second); MF_Set_Edges(f, n, es.data(), ds.data());
    PV le = es; std::vector<int> ld = ds;
    for (int t = c.rng.range(1, n - 1); t > 0 && !c.failed(); t--) {
      int i = c.rng.below((int)le.size()); void* e = le[i]; MF_Rem_Edge(f, e); le.erase(le.begin() + i); ld.erase(ld.begin() + i);
      PV g = take(MF_Edges(f, 1, 0)); CHECK(c, g == le, "MF_Rem_Edge.edges", "the edges left are not the ones expected, %zu of %zu", g.size(), le.size());
      for (size_t j = 0; j < g.size(); j++) if (MF_EdgeDir_i(f, (int)j) != ld[j] || MF_EdgeDir(f, g[j]) != ld[j]) { c.fail("MF_Rem_Edge.dir", "direction of edge %zu of %zu changed when edge %d was removed from the face", j, g.size(), i); break; }
      PV ef = take(ME_Faces(e)); CHECK(c, ef.empty(), "MF_Rem_Edge.upward", "the removed edge still has a face");
      PV e2 = take(ME_Faces(le[0])); CHECK(c, e2 == PV{f}, "MF_Rem_Edge.upward_rest", "an edge that was not removed lost its face");
      CHECK(c, !MF_UsesEntity(f, e, MEDGE) && MF_UsesEntity(f, le[0], MEDGE), "MF_Rem_Edge.uses", "wrong answer to whether the face uses an edge");
      c.count("removed_edges");
    }
    MF_Delete(f, 0); for (void* e : es) { PV ef = take(ME_Faces(e)); CHECK(c, ef.empty(), "MF_Delete.upward", "edge of a deleted face has a face"); }
    // edge
    for (int t = 0; t < 3 && n > 3 && !c.failed(); t++) {
      int i = c.rng.below(n), a = vs[i], b = vs[(i+1)%n], x = vs[(i + 2 + c.rng.below(n - 2)) % n]; void* e = nullptr; for (void* q : es) if (M.w.E(q) == ek(a, b)) e = q;
      if (!e) continue;
      bool at1 = ME_Vertex(e, 1) == M.w.v[b]; auto nx = take(MV_Edges(M.w.v[x])), nbv = take(MV_Edges(M.w.v[b])), na = take(MV_Edges(M.w.v[a]));
      ME_Replace_Vertex(e, M.w.v[b], M.w.v[x]);
      CHECK(c, ME_Vertex(e, at1) == M.w.v[x] && ME_Vertex(e, !at1) == M.w.v[a], "ME_Replace_Vertex.vertices", "the edge does not join the vertices expected");
      nx.push_back(e); nbv.erase(std::find(nbv.begin(), nbv.end(), e)); auto so = [](PV v) { std::sort(v.begin(), v.end()); return v; };
      CHECK(c, so(take(MV_Edges(M.w.v[x]))) == so(nx), "ME_Replace_Vertex.new", "edges of the new vertex");
      CHECK(c, so(take(MV_Edges(M.w.v[b]))) == so(nbv), "ME_Replace_Vertex.old", "edges of the old vertex");
      CHECK(c, so(take(MV_Edges(M.w.v[a]))) == so(na), "ME_Replace_Vertex.kept", "edges of the vertex that stays");
      c.count("replaced_edge_vertices");
    }
    for (void* e : es) ME_Delete(e, 0);
    for (int v : vs) { MV_Delete(M.w.v[v], 0); M.forgetv(v); }
    same(want, "scratch"); h += "s"; return true;
  }
};
CASE(C30, edits, 6) {
  GenOpt o; o.size = c.rng.chance(0.7) ? 2 : 3; o.manifold = !c.rng.chance(0.25);
  RepType rep = c.rng.chance(0.6) ? F1 : F4;
  Model m = gen(c.rng, o); m.xe.clear();
  Mod M(c, build(c.rng, m, rep, rand_build(c.rng, rep, m.dim)));
  if (c.rng.chance(0.5)) M.classify_all();
  std::string h; int n = c.rng.range(2, 10); Edit E(M, h);
  for (int i = 0; i < 4 * n && (int)h.size() < n && !c.failed() && usable(M.s); i++) {
    int op = c.rng.below(12);
    if (op < 5) E.chain(); else if (op < 7) E.refine(); else if (op == 7) E.coarsen(); else if (op == 8) E.twin(); else if (op < 11) E.remadd(); else E.scratch();
  }
  if (!c.failed()) M.full_check(M.s, "C30");
  c.count("operations", (long)h.size()); c.note("%s %s: %s", rep_name(rep), m.kind.c_str(), h.c_str());
  c.nontrivial = h.size() > 1; c.mix(model_hash(m)); c.mixs(h); c.mix(rep);
  MESH_Delete(M.w.m);
}
