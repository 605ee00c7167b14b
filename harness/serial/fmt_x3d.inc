// ---------------------------------------------------------------- FLAG X3D
// files for sets and materials go to the current directory, so each case runs in a directory of its own
struct InDir {
  std::string d, old; InDir() { char b[4096]; old = getcwd(b, sizeof b) ? b : "/"; d = tmpbase() + ".d"; mkdir(d.c_str(), 0700); if (chdir(d.c_str())) abort(); }
  ~InDir() { if (chdir(old.c_str())) abort(); std::string r = "find '" + d + "' -delete"; if (system(r.c_str())) {} }
};
struct X3dFace { IV v; int own = 0, opid = 0, opp = 0; };
struct X3dFile {
  std::map<std::string, int> head; std::vector<std::string> mat; std::vector<V3> x; std::vector<X3dFace> f; std::vector<IV> c; std::vector<std::string> matid; IV part;
  std::vector<std::pair<std::string, std::vector<double>>> cv, nv; std::string err;
};
static X3dFile x3d_parse(const std::string& s) {
  X3dFile F; Tok t(s);
  auto need = [&](const char* w) { if (F.err.empty() && t.s() != w) F.err = std::string("expected ") + w + ", found " + (t.i ? t.t[t.i - 1] : "?") + " (token " + std::to_string(t.i) + ")"; return F.err.empty(); };
  if (!need("x3dtoflag") || !need("ascii") || !need("header")) return F;
  while (!t.end() && !t.is("end_header")) { std::string w = t.s(); F.head[w] = t.n(); }
  int D = F.head["numdim"], nm = F.head["materials"];
  need("matnames"); F.mat.resize(std::max(nm, 0)); for (int i = 0; i < nm && !t.bad; i++) { if (t.n() != i + 1) F.err = "matnames order"; F.mat[i] = t.s(); } need("end_matnames");
  need("mateos"); for (int i = 0; i < nm && !t.bad; i++) { t.n(); t.s(); } need("end_mateos");
  need("matopc"); for (int i = 0; i < nm && !t.bad; i++) { t.n(); t.s(); } need("end_matopc");
  if (!F.err.empty()) return F;
  need("nodes"); for (int i = 0; i < F.head["nodes"] && !t.bad; i++) { int id = t.n(); if (id != i + 1) F.err = "node numbered " + std::to_string(id) + " at place " + std::to_string(i + 1); V3 p; for (int j = 0; j < 3; j++) p[j] = t.d(); F.x.push_back(p); } need("end_nodes");
  if (!F.err.empty()) return F;
  need("faces"); F.f.resize(std::max(F.head["faces"], 0)); std::vector<bool> seen(F.f.size(), false);
  for (size_t i = 0; i < F.f.size() && !t.bad; i++) { int id = t.n(), k = t.n(); if (id < 1 || id > (int)F.f.size() || seen[id - 1]) { F.err = "face number " + std::to_string(id) + " out of range or repeated"; return F; } seen[id - 1] = true; X3dFace& f = F.f[id - 1]; for (int j = 0; j < k && !t.bad; j++) f.v.push_back(t.n() - 1); f.own = t.n(); f.opid = t.n(); f.opp = t.n(); for (int j = 0; j < 5; j++) t.n(); if (f.opp > 0 && f.opp < id && !(f.opp <= (int)F.f.size() && seen[f.opp - 1])) F.err = "face " + std::to_string(id) + " is listed before the original it refers to"; }
  need("end_faces"); if (!F.err.empty()) return F;
  need("cells"); for (int i = 0; i < F.head["elements"] && !t.bad; i++) { if (t.n() != i + 1) F.err = "cell numbering"; int k = t.n(); IV q; for (int j = 0; j < k && !t.bad; j++) q.push_back(t.n() - 1); F.c.push_back(q); } need("end_cells");
  if (!F.err.empty()) return F;
  need("slaved_nodes"); t.n(); need("end_slaved_nodes"); need("ghost_nodes"); t.n(); for (int i = 0; i < F.head["ghost_nodes"]; i++) for (int j = 0; j < 4; j++) t.n(); need("end_ghost_nodes");
  need("cell_data"); need("matid"); for (size_t i = 0; i < F.c.size(); i++) F.matid.push_back(t.s()); need("end_matid"); need("partelm"); for (size_t i = 0; i < F.c.size(); i++) F.part.push_back(t.n()); need("end_partelm");
  while (F.err.empty() && !t.end() && !t.is("end_cell_data")) { std::string w = t.s(); std::vector<double> v; for (size_t i = 0; i < F.c.size() && !t.bad; i++) v.push_back(t.d()); F.cv.push_back({w, v}); need(("end_" + w).c_str()); }
  need("node_data"); while (F.err.empty() && !t.end() && !t.is("end_node_data")) { std::string w = t.s(); std::vector<double> v; for (size_t i = 0; i < 3 * F.x.size() && !t.bad; i++) v.push_back(t.d()); F.nv.push_back({w, v}); need(("end_" + w).c_str()); }
  need("end_dump"); if (F.err.empty() && (t.bad || !t.end())) F.err = "bad token or text after end_dump";
  (void)D; return F;
}
static IV canon(IV v) { if (v.empty()) return v; std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); return v; }
typedef std::vector<IV> VIV;
// the boundary of every cell of the mesh, oriented outward, in the numbering of num
static VIV cell_sides(const MView& w, void* p, int D, std::map<void*, int>& num) {
  VIV o;
  if (D == 3) { List_ptr l = MR_Faces(p); for (int q = 0; q < List_Num_Entries(l); q++) { IV v; for (void* z : take(MF_Vertices(List_Entry(l, q), 1, 0))) v.push_back(num[z]); if (!MR_FaceDir_i(p, q)) std::reverse(v.begin(), v.end()); o.push_back(canon(v)); } List_Delete(l); }
  else { IV v; for (void* z : take(MF_Vertices(p, 1, 0))) v.push_back(num[z]); for (size_t i = 0; i < v.size(); i++) o.push_back({v[i], v[(i + 1) % v.size()]}); }
  std::sort(o.begin(), o.end()); return o;
}
static std::vector<int> set_file(const std::string& fn, int& ones, bool& ok) {   // IDs up to the blank line, then as many volume fractions
  IV v; ones = 0; FILE* f = fopen(fn.c_str(), "r"); ok = f != nullptr; if (!f) return v;
  char b[256]; bool blank = false;
  while (fgets(b, sizeof b, f)) { char* e; std::string s = b; if (s.find_first_not_of(" \n") == std::string::npos) { blank = true; continue; } if (!blank) v.push_back((int)strtol(b, &e, 10)); else if (strtod(b, &e) == 1.0) ones++; else ok = false; }
  fclose(f); return v;
}

CASE(C15, x3d_write, 3) {
  Rng& g = c.rng; InDir in;
  GenOpt o; o.size = 3; o.manifold = true; o.planar = g.chance(0.4);
  RepType rep = g.chance(0.7) ? F1 : F4;
  Model m = g.chance(0.4) ? gen2(g, o) : gen3(g, o); int D = m.dim;
  m.nxf = 0; m.xe.clear(); if (D == 3) m.f.clear(); compact(m);
  MView w = build(g, m, rep, rand_build(g, rep, D));
  if (g.chance(0.3)) { PV top = all_of(w.m, D); int nd = 0; for (void* p : top) if ((int)top.size() - nd > 1 && g.chance(0.2)) { MEnt_Delete(p, 0); nd++; } for (int d = D - 1; d >= 0; d--) for (void* p : all_of(w.m, d)) if (!nadj(d == 0 ? MV_Edges(p) : d == 1 ? ME_Faces(p) : MF_Regions(p))) MEnt_Delete(p, 0); }
  shuffle_ids(c, w.m, true, D, 0.3);
  PV cell = all_of(w.m, D), node = all_of(w.m, 0);
  for (int d = 0; d < 4; d++) for (void* p : all_of(w.m, d)) { MEnt_Set_GEntDim(p, d == D ? D : g.range(d, D)); MEnt_Set_GEntID(p, g.range(1, 30)); }
  int nid = g.range(1, 5), step = g.chance(0.3) ? g.range(1, 9) : 1; for (void* p : cell) MEnt_Set_GEntID(p, g.range(1, nid) * step);
  add_attributes(c, w.m, g.below(6), true, {MVERTEX, MFACE, MREGION, MALLTYPE}, "x", 1e4);
  if (g.chance(0.7)) { MAttrib_ptr a = MAttrib_New(w.m, "velocity", VECTOR, g.chance(0.8) ? MVERTEX : MALLTYPE, D); for (void* p : node) if (g.chance(0.8)) { double v[3] = {g.real(-9, 9), g.real(-9, 9), g.real(-9, 9)}; MEnt_Set_AttVal(p, a, 0, 0, v); } }
  std::map<std::string, IV> eset, nset; std::map<void*, int> num, cnum; for (size_t i = 0; i < node.size(); i++) num[node[i]] = (int)i; for (size_t i = 0; i < cell.size(); i++) cnum[cell[i]] = (int)i;
  for (int q = g.below(4); q > 0; q--) { bool el = g.chance(0.5); std::string nm = (el ? "blk" : "nod") + std::to_string(q); MSet_ptr s = MSet_New(w.m, nm.c_str(), el ? (D == 3 ? MREGION : MFACE) : MVERTEX); IV& v = el ? eset[nm] : nset[nm]; PV pick = el ? cell : node; g.shuffle(pick); double fr = g.unit(); for (void* p : pick) if (g.chance(fr)) { MSet_Add(s, p); v.push_back((el ? cnum : num)[p] + 1); } }
  std::vector<std::string> names; { int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(w.m, &i))) { char nm[600]; MAttrib_Get_Name(a, nm); names.push_back(nm); } }
  int natt = 0; std::vector<const char*> an; std::set<std::string> sel(names.begin(), names.end());
  if (g.chance(0.2)) natt = -1, sel.clear();
  else if (g.chance(0.3) && !names.empty()) { sel.clear(); for (auto& s : names) if (g.chance(0.5)) { an.push_back(s.c_str()); sel.insert(s); } if (an.empty()) { an.push_back(names[0].c_str()); sel.insert(names[0]); } natt = (int)an.size(); }
  for (int d = 0; d < 4; d++) for (void* p : all_of(w.m, d)) MEnt_Set_GlobalID(p, g.range(0, 1000));
  Dump a = dump_mesh(w.m); std::string k = "x3d.write.", base = g.chance(0.3) ? in.d + "/out" : g.chance(0.3) ? "./out" : "out", fn = base + ".x3d";
  int ok = g.chance(0.3) ? MESH_ExportToFile(w.m, fn.c_str(), "x3d", natt, an.data(), nullptr, nullptr) : MESH_ExportToFLAGX3D(w.m, fn.c_str(), natt, an.data(), nullptr, nullptr);
  CHECK(c, ok == 1, k + "status", "writing returned %d", ok);
  Dump a2 = dump_mesh(w.m); same_dump(c, k + "changed-mesh", a2, a);
  X3dFile F = x3d_parse(slurp("out.x3d"));
  CHECK(c, F.err.empty(), k + "file", "not an X3D file: %s", F.err.c_str());
  if (F.err.empty()) {
    CHECK(c, F.head["process"] == 1 && F.head["numdim"] == D && F.head["ghost_nodes"] == 0 && F.head["slaved_nodes"] == 0, k + "header", "process %d, dimension %d, %d ghost, %d slaved nodes", F.head["process"], F.head["numdim"], F.head["ghost_nodes"], F.head["slaved_nodes"]);
    CHECK(c, F.head.size() <= 13, k + "header-size", "%zu keywords", F.head.size());
    CHECK(c, F.x.size() == node.size() && F.c.size() == cell.size(), k + "counts", "%zu nodes, %zu cells, should be %zu, %zu", F.x.size(), F.c.size(), node.size(), cell.size());
    for (size_t i = 0; i < F.x.size() && i < node.size(); i++) { double q[3]; MV_Coords(node[i], q); for (int j = 0; j < 3; j++) CHECK(c, std::fabs(q[j] - F.x[i][j]) <= 1e-13 * (1 + std::fabs(q[j])), k + "coords", "node %zu", i); }
    IV used(F.f.size(), 0); int mfv = 0, mcf = 0; for (auto& f : F.f) mfv = std::max(mfv, (int)f.v.size());
    for (size_t i = 0; i < F.f.size(); i++) {
      auto& f = F.f[i]; CHECK(c, f.own == 1, k + "face-owner", "face %zu owned by process %d", i + 1, f.own);
      if (!f.opp) { CHECK(c, f.opid == 0, k + "opp-process", "boundary face %zu has a neighbour on process %d", i + 1, f.opid); continue; }
      bool in = f.opp >= 1 && f.opp <= (int)F.f.size() && f.opp != (int)i + 1; CHECK(c, in && f.opid == 1, k + "opp", "face %zu has opposite %d on process %d", i + 1, f.opp, f.opid);
      if (in) { auto& h = F.f[f.opp - 1]; CHECK(c, h.opp == (int)i + 1, k + "opp-mutual", "face %zu has opposite %d whose opposite is %d", i + 1, f.opp, h.opp); IV r = h.v; std::reverse(r.begin(), r.end()); CHECK(c, canon(r) == canon(f.v), k + "opp-reversed", "faces %zu and %d do not run opposite ways", i + 1, f.opp); }
    }
    for (size_t i = 0; i < F.c.size() && i < cell.size(); i++) {
      VIV s; mcf = std::max(mcf, (int)F.c[i].size());
      for (int q : F.c[i]) { bool inr = q >= 0 && q < (int)F.f.size(); CHECK(c, inr, k + "cell-face", "cell %zu has face %d", i + 1, q + 1); if (!inr) continue; used[q]++; s.push_back(D == 3 ? canon(F.f[q].v) : F.f[q].v); }
      std::sort(s.begin(), s.end()); VIV want = cell_sides(w, cell[i], D, num);
      CHECK(c, s == want, k + "cell", "cell %zu is bounded by %s, should be %s", i + 1, showk(s).c_str(), showk(want).c_str());
      c.count("cells_checked");
      CHECK(c, F.matid[i] == std::to_string(MEnt_GEntID(cell[i])), k + "matid", "cell %zu of material %s, should be %d", i + 1, F.matid[i].c_str(), MEnt_GEntID(cell[i]));
      CHECK(c, F.part[i] == 1, k + "partelm", "cell %zu on process %d", i + 1, F.part[i]);
    }
    for (size_t i = 0; i < used.size(); i++) CHECK(c, used[i] == 1, k + "face-use", "face %zu bounds %d cells", i + 1, used[i]);
    CHECK(c, F.head["nodes_per_face"] >= mfv && F.head["faces_per_cell"] >= mcf, k + "header-max", "largest face %d and cell %d announced, there are %d and %d", F.head["nodes_per_face"], F.head["faces_per_cell"], mfv, mcf);
    std::set<int> gids; for (void* p : cell) gids.insert(MEnt_GEntID(p));
    std::vector<std::string> wm; for (int q : gids) wm.push_back(std::to_string(q));
    CHECK(c, F.mat == wm, k + "materials", "%zu materials, should be %zu", F.mat.size(), wm.size());
    std::map<std::string, std::vector<double>> wc, wn, gc(F.cv.begin(), F.cv.end()), gn(F.nv.begin(), F.nv.end());
    for (auto& nm : a.attorder) if (sel.count(nm)) {
      DAtt& A = a.att[nm];
      if ((A.type == INT || A.type == DOUBLE) && ((int)A.dim == D || A.dim == MALLTYPE)) { auto& v = wc[nm]; for (size_t i = 0; i < cell.size(); i++) { auto it = A.val.find({D, (int)i}); v.push_back(it == A.val.end() ? 0 : it->second[0]); } }
      if (A.type == VECTOR && A.nc == D && (A.dim == MVERTEX || A.dim == MALLTYPE)) { auto& v = wn[nm]; for (size_t i = 0; i < node.size(); i++) { auto it = A.val.find({0, (int)i}); for (int j = 0; j < 3; j++) v.push_back(it == A.val.end() || j >= D || it->second.empty() ? 0 : it->second[j]); } }
    }
    auto cmp = [&](const char* what, std::map<std::string, std::vector<double>>& got, std::map<std::string, std::vector<double>>& want) {
      for (auto& q : want) { CHECK(c, got.count(q.first), k + what + "-missing", "no field %s", q.first.c_str()); if (!got.count(q.first)) continue; auto& v = got[q.first]; for (size_t i = 0; i < v.size() && i < q.second.size(); i++) { CHECK(c, std::fabs(v[i] - q.second[i]) <= 1e-11 * (1 + std::fabs(q.second[i])), k + what, "%s value %zu is %.15g, should be %.15g", q.first.c_str(), i, v[i], q.second[i]); c.count("variable_values"); } }
      for (auto& q : got) CHECK(c, want.count(q.first), k + what + "-extra", "unexpected field %s", q.first.c_str()); };
    cmp("cell-data", gc, wc); cmp("node-data", gn, wn);
    CHECK(c, F.head["cell_data_fields"] == (int)F.cv.size() + 2 && F.head["node_data_fields"] == (int)F.nv.size(), k + "fields", "%d cell and %d node fields announced, there are %zu and %zu", F.head["cell_data_fields"], F.head["node_data_fields"], F.cv.size() + 2, F.nv.size());
    int ones; bool fo; int mi = 0;
    for (int gid : gids) { IV want; for (size_t i = 0; i < cell.size(); i++) if (MEnt_GEntID(cell[i]) == gid) want.push_back((int)i + 1); IV got = set_file("mat." + std::to_string(++mi) + ".Reg", ones, fo); CHECK(c, fo && got == want && ones == (int)want.size(), k + "matreg", "mat.%d.Reg lists %s, should be %s (%d fractions)", mi, show(got).c_str(), show(want).c_str(), ones); }
    for (auto& q : eset) { IV got = set_file("out." + q.first + ".Reg", ones, fo); CHECK(c, fo && got == q.second && ones == (int)got.size(), k + "elset", "set %s is %s, should be %s", q.first.c_str(), show(got).c_str(), show(q.second).c_str()); }
    for (auto& q : nset) { IV got = set_file("out." + q.first + ".Bdy", ones, fo); CHECK(c, fo && got == q.second, k + "nodeset", "set %s is %s, should be %s", q.first.c_str(), show(got).c_str(), show(q.second).c_str()); }
    // and by the library
    if (g.chance(0.5)) {
      Mesh_ptr n = MESH_New(g.chance(0.7) ? F1 : F4); int rk = MESH_ImportFromFLAGX3D(n, fn.c_str(), nullptr, nullptr); CHECK(c, rk == 1, k + "reread", "reading back returned %d", rk);
      PV nc = all_of(n, D), nn = all_of(n, 0); std::map<void*, int> n2; for (size_t i = 0; i < nn.size(); i++) n2[nn[i]] = (int)i;
      CHECK(c, nc.size() == cell.size() && nn.size() == node.size(), k + "reread-counts", "%zu cells, %zu nodes", nc.size(), nn.size());
      MView w2; w2.index_by_order(n);
      if (nc.size() == cell.size() && nn.size() == node.size()) for (size_t i = 0; i < nc.size(); i++) CHECK(c, cell_sides(w2, nc[i], D, n2) == cell_sides(w, cell[i], D, num), k + "reread-cell", "cell %zu", i);
      MESH_Delete(n);
    }
  }
  c.note("%s %s, %zu cells, %zu+%zu fields, %zu sets", m.kind.c_str(), rep_name(rep), cell.size(), F.cv.size(), F.nv.size(), eset.size() + nset.size());
  c.mix(model_hash(m)); c.mix(rep); c.mix(F.cv.size() * 16 + F.nv.size()); c.mix(eset.size() * 16 + nset.size()); c.nontrivial = cell.size() > 1;
  MESH_Delete(w.m);
}

CASE(C15, x3d_read, 2) {
  Rng& g = c.rng; InDir in;
  GenOpt o; o.size = 3; o.manifold = true; o.planar = g.chance(0.4);
  RepType rep = g.chance(0.7) ? F1 : F4;
  Model m = g.chance(0.4) ? gen2(g, o) : gen3(g, o); int D = m.dim;
  m.nxf = 0; m.xe.clear(); if (D == 3) m.f.clear(); compact(m);
  Topo t = topo(m);
  // the sides: originals and duplicates numbered in any order with each original before its duplicate
  struct S { IV v; int cell, mate; }; std::vector<S> s; std::map<IV, int> at; std::vector<IV> cs;
  size_t nc = D == 3 ? m.r.size() : m.f.size();
  for (size_t i = 0; i < nc; i++) { VIV b; if (D == 3) for (auto& z : t.rf[i]) { IV v = t.f[z.first]; if (!z.second) std::reverse(v.begin(), v.end()); b.push_back(v); } else for (size_t j = 0; j < m.f[i].v.size(); j++) b.push_back({m.f[i].v[j], m.f[i].v[(j + 1) % m.f[i].v.size()]}); cs.emplace_back(); for (auto& v : b) { if (D == 3) std::rotate(v.begin(), v.begin() + g.below((int)v.size()), v.end()); auto it = at.find(sorted(v)); int q = (int)s.size(); S z{v, (int)i, -1}; if (it != at.end()) { z.mate = it->second; s[it->second].mate = q; } else at[sorted(v)] = q; s.push_back(z); cs.back().push_back(q); } }
  IV ord(s.size()), nr(s.size()); std::iota(ord.begin(), ord.end(), 0); g.shuffle(ord);
  if (g.chance(0.5)) std::stable_sort(ord.begin(), ord.end(), [&](int x, int y) { auto dup = [&](int q) { return s[q].mate >= 0 && s[q].mate < q; }; return dup(x) < dup(y); });
  for (size_t i = 0; i < ord.size(); i++) nr[ord[i]] = (int)i + 1;
  FILE* f = fopen("in.x3d", "w"); if (!f) return;
  int nm = g.range(1, 4), nf = g.below(3), nv = g.below(3); std::vector<std::string> mn; for (int i = 0; i < nm; i++) { static const char* pre[] = {"", "mat", "Al-"}; mn.push_back(pre[g.below(3)] + std::to_string((i + 1) * 7)); }
  fprintf(f, "x3dtoflag ascii\nheader\n   process   1\n   numdim   %d\n   materials %d\n   nodes   %zu\n   faces  %zu\n   elements  %zu\n   ghost_nodes 0\n   slaved_nodes  0\n   nodes_per_slave 2\n   nodes_per_face 20\n   faces_per_cell 20\n   node_data_fields %d\n   cell_data_fields %d\nend_header\n", D, nm, m.x.size(), s.size(), nc, nv, nf + 2);
  fprintf(f, "matnames\n"); for (int i = 0; i < nm; i++) fprintf(f, "  %d  %s\n", i + 1, mn[i].c_str()); fprintf(f, "end_matnames\nmateos\n"); for (int i = 0; i < nm; i++) fprintf(f, "  %d  -1\n", i + 1); fprintf(f, "end_mateos\nmatopc\n"); for (int i = 0; i < nm; i++) fprintf(f, "  %d  -1\n", i + 1); fprintf(f, "end_matopc\nnodes\n");
  for (size_t i = 0; i < m.x.size(); i++) fprintf(f, "%10zu %22.17g %22.17g %22.17g\n", i + 1, m.x[i][0], m.x[i][1], m.x[i][2]);
  fprintf(f, "end_nodes\nfaces\n");
  for (int q : ord) { int k = 0; auto p = [&](int v) { fprintf(f, "%10d", v); if (++k % 13 == 0) fputs("\n", f); }; p(nr[q]); p((int)s[q].v.size()); for (int z : s[q].v) p(z + 1); p(1); p(s[q].mate >= 0 ? 1 : 0); p(s[q].mate >= 0 ? nr[s[q].mate] : 0); for (int j = 0; j < 5; j++) p(1); fputs("\n", f); }
  fprintf(f, "end_faces\ncells\n"); for (size_t i = 0; i < nc; i++) { fprintf(f, "%10zu%10zu", i + 1, cs[i].size()); for (int q : cs[i]) fprintf(f, "%10d", nr[q]); fputs("\n", f); }
  fprintf(f, "end_cells\nslaved_nodes 0\nend_slaved_nodes\nghost_nodes 0\nend_ghost_nodes\ncell_data\nmatid\n");
  IV mat; for (size_t i = 0; i < nc; i++) { mat.push_back(g.below(nm)); fprintf(f, "%10s", mn[mat[i]].c_str()); if ((i + 1) % 10 == 0) fputs("\n", f); } if (nc % 10) fputs("\n", f);
  fprintf(f, "end_matid\npartelm\n"); for (size_t i = 0; i < nc; i++) { fprintf(f, "%10d", 1); if ((i + 1) % 10 == 0) fputs("\n", f); } fprintf(f, "\nend_partelm\n");
  std::vector<std::vector<double>> cv(nf), vv(nv);
  for (int q = 0; q < nf; q++) { fprintf(f, "cf%d\n", q); for (size_t i = 0; i < nc; i++) { cv[q].push_back(g.real(-5, 5)); fprintf(f, "%.17g\n", cv[q][i]); } fprintf(f, "end_cf%d\n", q); }
  fprintf(f, "end_cell_data\nnode_data\n");
  for (int q = 0; q < nv; q++) { fprintf(f, "vf%d\n", q); for (size_t i = 0; i < 3 * m.x.size(); i++) { vv[q].push_back(g.real(-5, 5)); fprintf(f, "%.17g%s", vv[q][i], i % 3 == 2 ? "\n" : " "); } fprintf(f, "end_vf%d\n", q); }
  fprintf(f, "end_node_data\nend_dump\n"); fclose(f);
  // element and node sets in files of their own, and files of another mesh beside them
  std::map<std::string, IV> eset, nset; int one = g.below(2), two = g.below(3);
  auto wr = [&](const std::string& fn, const IV& v, bool el) { FILE* h = fopen(fn.c_str(), "w"); if (!h) return; for (int q : v) fprintf(h, "% 10d\n", q); if (el) { fputs("\n", h); for (size_t i = 0; i < v.size(); i++) fprintf(h, "% 20.18e\n", 1.0); } fclose(h); };
  auto pick = [&](size_t n) { IV v; for (size_t i = 0; i < n; i++) if (g.chance(0.4)) v.push_back((int)i + 1); g.shuffle(v); return v; };
  for (int i = 0; i < one; i++) { std::string nme = "steel" + std::to_string(i); wr("in." + nme + ".Reg", eset[nme] = pick(nc), true); }
  for (int i = 0; i < two; i++) { std::string nme = "bnd" + std::to_string(i); wr("in." + nme + ".Bdy", nset[nme] = pick(m.x.size()), false); }
  if (g.chance(0.3)) { wr("inner.odd.Reg", IV{1}, true); wr("other.odd.Bdy", IV{1}, false); wr("in.Reg", IV{1}, true); }
  std::string fn = g.chance(0.3) ? in.d + "/in.x3d" : g.chance(0.3) ? "./in.x3d" : "in.x3d", k = "x3d.read.";
  Mesh_ptr n = MESH_New(rep); int ok = g.chance(0.3) ? MESH_ImportFromFile(n, fn.c_str(), "x3d", nullptr, nullptr) : MESH_ImportFromFLAGX3D(n, fn.c_str(), nullptr, nullptr);
  CHECK(c, ok == 1, k + "status", "reading returned %d", ok);
  MView w; w.index_by_order(n); CHECK(c, w.v.size() == m.x.size(), k + "nv", "%zu vertices, should be %zu", w.v.size(), m.x.size());
  if (w.v.size() == m.x.size()) {
    if (D == 3) for (auto& R : m.r) { R.fv = reg_faces(R); R.type = poly_type(R.fv); R.v.clear(); }
    verify(c, w, m, VF_IDS | VF_COORDS | VF_COMMON | (D == 3 ? VF_ORIENT | VF_TEMPLATE : VF_FACEORIENT | VF_ORIENT), k);
    PV el = all_of(n, D);
    if (!eset.empty() && !eset.begin()->second.empty()) for (int q : eset.begin()->second) mat[q - 1] = 0;
    for (size_t i = 0; i < el.size() && i < nc; i++) {
      IV want = D == 3 ? t.rv[i] : sorted(m.f[i].v), got = D == 3 ? w.R(el[i]) : w.F(el[i]);
      CHECK(c, got == want, k + "cell", "cell %zu has vertices %s, should be %s", i, show(got).c_str(), show(want).c_str());
      CHECK(c, MEnt_GEntID(el[i]) == mat[i] + 1 && MEnt_GEntDim(el[i]) == D, k + "class", "cell %zu classified %d,%d, should be %d,%d", i, MEnt_GEntDim(el[i]), MEnt_GEntID(el[i]), D, mat[i] + 1);
      for (int q = 0; q < nf; q++) { MAttrib_ptr A = MESH_AttribByName(n, ("cf" + std::to_string(q)).c_str()); int iv; double dv = 0; void* pv; bool has = A && MEnt_Get_AttVal(el[i], A, &iv, &dv, &pv); CHECK(c, A && (int)MAttrib_Get_EntDim(A) == D && (has || cv[q][i] == 0) && dv == cv[q][i], k + "cell-data", "field %d of cell %zu is %.17g, should be %.17g", q, i, dv, cv[q][i]); c.count("variable_values"); }
    }
    for (int q = 0; q < nv; q++) { MAttrib_ptr A = MESH_AttribByName(n, ("vf" + std::to_string(q)).c_str()); CHECK(c, A && MAttrib_Get_Type(A) == VECTOR && MAttrib_Get_NumComps(A) == 3 && MAttrib_Get_EntDim(A) == MVERTEX, k + "node-field", "field %d missing or of the wrong kind", q); if (A) for (size_t i = 0; i < w.v.size(); i++) { int iv; double dv; void* pv = nullptr; MEnt_Get_AttVal(w.v[i], A, &iv, &dv, &pv); bool same = pv && !memcmp(pv, &vv[q][3 * i], 3 * sizeof(double)); CHECK(c, same, k + "node-data", "field %d of node %zu differs", q, i); c.count("variable_values"); } }
    CHECK(c, MESH_Num_MSets(n) == (int)(eset.size() + nset.size()), k + "nsets", "%d sets, should be %zu", MESH_Num_MSets(n), eset.size() + nset.size());
    for (int pass = 0; pass < 2; pass++) for (auto& q : pass ? nset : eset) { MSet_ptr S = MESH_MSetByName(n, q.first.c_str()); CHECK(c, S && (int)MSet_EntDim(S) == (pass ? 0 : D), k + "set-missing", "no set %s", q.first.c_str()); if (!S) continue; IV got; int i = 0; void* p; while ((p = MSet_Next_Entry(S, &i))) got.push_back(MEnt_ID(p)); CHECK(c, got == q.second, k + "set", "set %s is %s, should be %s", q.first.c_str(), show(got).c_str(), show(q.second).c_str()); }
  }
  c.note("%s into %s, %d+%d fields, %zu sets", m.kind.c_str(), rep_name(rep), nf, nv, eset.size() + nset.size());
  c.mix(model_hash(m)); c.mix(rep); c.mix(nf * 4 + nv); c.mix(eset.size() * 16 + nset.size()); c.nontrivial = nc > 1;
  MESH_Delete(n);
}
