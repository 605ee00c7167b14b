// C14: Exodus II files, written and read by MSTK, against what the Exodus library itself finds in them.
#include "meshcmp.h"
#include "exo.h"
#include <unistd.h>

static std::string tmpname(const char* ext) {
  static std::atomic<int> n(0); const char* d = getenv("TMPDIR");
  return std::string(d ? d : "/tmp") + "/ex" + std::to_string(getpid()) + "_" + std::to_string(n++) + ext;
}
static EK ek(const IV& v) { return {std::min(v[0], v[1]), std::max(v[0], v[1])}; }

// the mesh read from a file against the file
static void check_import(Ctx& c, const std::string& k, Mesh_ptr mesh, const ExoFile& F, const Model& m, RepType rep) {
  MView w; w.index_by_order(mesh);
  CHECK(c, w.v.size() == F.x.size(), k + "nv", "%zu vertices, file has %zu", w.v.size(), F.x.size());
  if (w.v.size() != F.x.size()) return;
  bool full = rep == F1 || rep == F4;
  CHECK(c, MESH_RepType(mesh) == rep, k + "rep", "representation changed");
  verify(c, w, m, VF_IDS | VF_COORDS | VF_COMMON | (m.dim == 3 ? VF_ORIENT | VF_TEMPLATE : VF_FACEORIENT | VF_ORIENT), k);
  if (c.failed()) return;
  // elements in file order
  PV el = all_of(mesh, m.dim); Topo t = topo(m);
  std::vector<IV> ev; for (size_t i = 0; i < el.size(); i++) ev.push_back(sorted(m.dim == 3 ? w.Rv(el[i]) : w.Fc(el[i])));
  int n = 0;
  std::map<void*, int> eid;
  for (auto& B : F.blk) for (size_t j = 0; j < B.conn.size(); j++, n++) {
    eid[el[n]] = n;
    IV want = m.dim == 3 ? t.rv[n] : sorted(m.f[n].v);
    CHECK(c, ev[n] == want, k + "element", "element %d has vertices %s, should be %s", n, show(ev[n]).c_str(), show(want).c_str());
    CHECK(c, MEnt_GEntDim(el[n]) == m.dim, k + "element-gdim", "element %d of block %d classified on dimension %d", n, B.id, MEnt_GEntDim(el[n]));
    CHECK(c, MEnt_GEntID(el[n]) == B.id, k + "element-gid", "element %d of block %d classified on %d", n, B.id, MEnt_GEntID(el[n]));
    if (!F.emap.empty()) CHECK(c, MEnt_GlobalID(el[n]) == F.emap[n], k + "element-map", "element %d has global ID %d, map says %d", n, MEnt_GlobalID(el[n]), F.emap[n]);
  }
  for (size_t i = 0; i < F.x.size() && !F.nmap.empty(); i++) CHECK(c, MV_GlobalID(w.v[i]) == F.nmap[i], k + "node-map", "vertex %zu has global ID %d, map says %d", i, MV_GlobalID(w.v[i]), F.nmap[i]);
  // sets
  std::map<std::string, std::pair<MType, std::vector<IV>>> want, got;
  for (auto& s : F.nset) { auto& q = want["nodeset_" + std::to_string(s.first)]; q.first = MVERTEX; for (int i : s.second) q.second.push_back({i}); }
  MType ed = m.dim == 3 ? MREGION : MFACE, sd = m.dim == 3 ? MFACE : MEDGE;
  for (auto& s : F.eset) { auto& q = want["elemset_" + std::to_string(s.first)]; q.first = ed; for (int i : s.second) q.second.push_back(m.dim == 3 ? t.rv[i] : sorted(m.f[i].v)); }
  n = 0; for (auto& B : F.blk) { auto& q = want["matset_" + std::to_string(B.id)]; q.first = ed; for (size_t j = 0; j < B.conn.size(); j++, n++) q.second.push_back(m.dim == 3 ? t.rv[n] : sorted(m.f[n].v)); }
  if (full) for (auto& s : F.sset) { auto& q = want[F.ssname.count(s.first) ? F.ssname.at(s.first) : "sideset_" + std::to_string(s.first)]; q.first = sd; for (auto& i : s.second) q.second.push_back(sorted(exo_side(F, i.first, i.second))); }
  int i = 0; MSet_ptr S;
  while ((S = MESH_Next_MSet(mesh, &i))) {
    char nm[600]; MSet_Name(S, nm); auto& q = got[nm]; q.first = MSet_EntDim(S);
    int j = 0; void* p; while ((p = MSet_Next_Entry(S, &j))) { int d = MEnt_Dim(p); q.second.push_back(d == 0 ? IV{w.V(p)} : d == 1 ? IV{w.E(p).first, w.E(p).second} : d == 2 ? w.F(p) : w.R(p)); }
  }
  got.erase("faceset");
  for (auto& q : want) {
    std::string kind = q.first.substr(0, q.first.find('_'));
    auto it = got.find(q.first);
    CHECK(c, it != got.end(), k + "set-missing." + kind, "no set %s", q.first.c_str());
    if (it == got.end()) continue;
    CHECK(c, it->second.first == q.second.first, k + "set-dim." + kind, "set %s has dimension %d, should be %d", q.first.c_str(), (int)it->second.first, (int)q.second.first);
    auto a = dedup(it->second.second), b = dedup(q.second.second);
    CHECK(c, a == b, k + "set." + kind, "set %s is %s, file has %s", q.first.c_str(), showk(a).c_str(), showk(b).c_str());
    c.count("sets");
  }
  if (full) for (auto& q : got) CHECK(c, want.count(q.first), k + "set-extra", "unexpected set %s", q.first.c_str());
  // variables
  typedef std::pair<std::string, int> AK;
  std::map<AK, std::vector<std::vector<double>>> av;
  auto add = [&](const std::vector<ExoVar>& V, int dim) {
    for (auto& v : V) {
      size_t p = v.name.find("_veccomp"); std::string nm = v.name.substr(0, p);
      auto& q = av[{nm, dim}]; if (p == std::string::npos || v.name[p + 8] == '0') q.assign(v.v.size(), {});
      for (size_t j = 0; j < v.v.size(); j++) q[j].push_back(v.v[j]);
    }
  };
  add(F.nvar, 0); add(F.evar, m.dim);
  i = 0; MAttrib_ptr A; std::map<AK, MAttrib_ptr> have;
  while ((A = MESH_Next_Attrib(mesh, &i))) { char nm[600]; MAttrib_Get_Name(A, nm); have[{nm, (int)MAttrib_Get_EntDim(A)}] = A; }
  for (auto& q : av) {
    const char* nm = q.first.first.c_str(); auto it = have.find(q.first);
    CHECK(c, it != have.end(), k + "var-missing", "no attribute %s on dimension %d", nm, q.first.second);
    if (it == have.end()) continue;
    A = it->second; MAttType ty = MAttrib_Get_Type(A); size_t nc = q.second.empty() ? 1 : q.second[0].size();
    CHECK(c, nc == 1 || ty == VECTOR || ty == TENSOR, k + "var-type", "attribute %s of type %d", nm, (int)ty);
    CHECK(c, nc == 1 || (size_t)MAttrib_Get_NumComps(A) == nc, k + "var-comps", "attribute %s has %d components, file %zu", nm, MAttrib_Get_NumComps(A), nc);
    PV& on = q.first.second == 0 ? w.v : el;
    for (size_t j = 0; j < on.size(); j++) {
      int iv; double dv; void* pv = nullptr; MEnt_Get_AttVal(on[j], A, &iv, &dv, &pv);
      for (size_t x = 0; x < nc; x++) { double gv = ty == DOUBLE ? dv : pv ? ((double*)pv)[x] : NAN; CHECK(c, gv == q.second[j][x], k + "var-value", "attribute %s on %zu component %zu is %.17g, file has %.17g", nm, j, x, gv, q.second[j][x]); }
      c.count("variable_values");
    }
  }
}

// ---------------------------------------------------------------- reading what the Exodus library wrote
static ExoFile random_exo(Ctx& c, const Model& m0, bool sides) {
  Rng& g = c.rng; Model m = m0; ExoFile F; F.x = m.x;
  bool flat = m.dim == 2; for (auto& x : m.x) if (x[2] != 0) flat = false;
  F.dim = flat ? 2 : 3;
  int nb = g.range(1, 4); IV bid; while ((int)bid.size() < nb) { int b = g.chance(0.1) ? g.range(1000, 200000) : g.range(1, 40); if (std::find(bid.begin(), bid.end(), b) == bid.end()) bid.push_back(b); }
  // group elements by block and type
  std::map<std::string, std::vector<std::vector<IV>>> grp;  // type -> by block slot
  std::map<IV, int> fid;
  auto face = [&](IV f) { IV s = sorted(f); auto it = fid.find(s); if (it != fid.end()) return it->second; if (g.chance(0.5)) std::reverse(f.begin(), f.end()); std::rotate(f.begin(), f.begin() + g.below((int)f.size()), f.end()); int i = (int)F.faces.size(); F.faces.push_back(f); fid[s] = i; return i; };
  double pnf = g.chance(0.5) ? 0 : g.unit(), pns = g.chance(0.5) ? 0 : g.unit();
  bool shell = g.chance(0.3);
  std::vector<std::pair<std::string, IV>> els;
  if (m.dim == 3) for (auto& R : m.r) {
    if (R.fv.empty() && !g.chance(pnf)) els.push_back({R.type == T_TET ? g.pick(std::vector<std::string>{"TETRA", "TET4", "tetra4"}) : R.type == T_PYR ? g.pick(std::vector<std::string>{"PYRAMID", "PYRAMID5"}) : R.type == T_PRISM ? g.pick(std::vector<std::string>{"WEDGE", "WEDGE6"}) : g.pick(std::vector<std::string>{"HEX", "HEX8"}), R.v});
    else { IV v; for (auto& f : reg_faces(R)) v.push_back(face(f)); els.push_back({g.chance(0.5) ? "NFACED" : "nfaced", v}); }
  } else for (auto& f : m.f) {
    size_t n = f.v.size();
    if (n > 4 || g.chance(pns)) els.push_back({g.chance(0.5) ? "NSIDED" : "nsided", f.v});
    else if (n == 3) els.push_back({shell && F.dim == 3 ? "SHELL3" : g.chance(0.5) ? "TRIANGLE" : "TRI3", f.v});
    else els.push_back({shell && F.dim == 3 ? "SHELL4" : g.chance(0.5) ? "QUAD" : "QUAD4", f.v});
  }
  std::map<std::string, std::string> canon;      // one spelling for each kind in the file
  for (auto& e : els) { std::string key = e.first.substr(0, 3); for (auto& ch : key) ch = toupper(ch); if (key == "SHE") key += std::to_string(e.second.size()); if (!canon.count(key)) canon[key] = e.first; e.first = canon[key]; }
  std::vector<int> slot(els.size()); for (auto& s : slot) s = g.below(nb);
  std::map<std::pair<int,std::string>, int> where; int nextid = 300;
  std::set<int> taken;
  for (size_t i = 0; i < els.size(); i++) {
    auto key = std::make_pair(slot[i], els[i].first);
    if (!where.count(key)) { ExoBlock B; B.type = els[i].first; B.id = taken.insert(bid[slot[i]]).second ? bid[slot[i]] : nextid++; where[key] = (int)F.blk.size(); F.blk.push_back(B); }
    F.blk[where[key]].conn.push_back(els[i].second);
  }
  int ne = F.nelem(), nn = (int)F.x.size();
  auto pickset = [&](int n) { IV v; double p = g.unit(); for (int i = 0; i < n; i++) if (g.chance(p)) v.push_back(i); g.shuffle(v); return v; };
  for (int i = g.below(4); i > 0; i--) F.nset[g.range(1, 90)] = pickset(nn);
  for (int i = g.below(3); i > 0; i--) F.eset[g.range(1, 90)] = pickset(ne);
  if (sides) for (int i = g.below(4); i > 0; i--) {
    int id = g.range(1, 90); auto& q = F.sset[id]; q.clear(); std::map<IV, int> cnt;
    for (int e = 0; e < ne; e++) for (int s = 0;; s++) { IV f = exo_side(F, e, s); if (f.empty()) break; cnt[sorted(f)]++; }
    bool inner = m.dim == 3 && g.chance(0.3);
    for (int e = 0; e < ne; e++) for (int s = 0;; s++) { IV f = exo_side(F, e, s); if (f.empty()) break; if ((inner || cnt[sorted(f)] == 1) && g.chance(0.4)) q.push_back({e, s}); }
    g.shuffle(q);
    if (g.chance(0.2)) F.ssname[id] = "wall" + std::to_string(id);
  }
  if (g.chance(0.4)) { IV p(nn); std::iota(p.begin(), p.end(), 1); g.shuffle(p); F.nmap = p; if (g.chance(0.3)) for (int& i : F.nmap) i += 1000; }
  if (g.chance(0.4)) { IV p(ne); std::iota(p.begin(), p.end(), 1); g.shuffle(p); F.emap = p; }
  for (int e = 0; e < 2; e++) for (int i = g.below(4); i > 0; i--) {
    int nc = g.chance(0.5) ? 1 : g.range(2, 9); std::string nm = (e ? "el" : "nd") + std::to_string(i) + (g.chance(0.3) ? "_x" : "");
    for (int k = 0; k < nc; k++) { ExoVar V; V.name = nc == 1 ? nm : nm + "_veccomp" + std::to_string(k); for (int j = 0; j < (e ? ne : nn); j++) V.v.push_back(g.chance(0.1) ? 0.0 : g.real(-1e6, 1e6)); (e ? F.evar : F.nvar).push_back(V); }
  }
  return F;
}

CASE(C14, exodus_read, 3) {
  Rng& g = c.rng;
  GenOpt o; o.size = 3; o.planar = g.chance(0.5);
  static const RepType reps[] = {F1, F1, F1, F4, R1, R2};
  RepType rep = reps[g.below(6)]; if (rep == R1 || rep == R2) o.standard_only = true;
  Model m0 = g.chance(0.4) ? gen2(g, o) : gen3(g, o);
  bool full = rep == F1 || rep == F4;
  ExoFile F = random_exo(c, m0, full);
  if (!full) for (auto& B : F.blk) if (ieq(B.type, "NFACED")) { full = true; rep = F1; }   // reduced representations have no general polyhedra
  std::string fn = tmpname(".exo");
  if (!exo_write(F, fn.c_str())) { c.note("library could not write"); unlink(fn.c_str()); return; }
  ExoFile R = exo_read(fn.c_str());
  CHECK(c, R.x.size() == F.x.size() && R.nelem() == F.nelem() && R.nset == F.nset && R.sset == F.sset && R.eset == F.eset, "monitor.exo", "the monitor's own reader and writer disagree");
  if (c.failed()) return;
  Model m = exo_model(F);
  Mesh_ptr n = MESH_New(rep);
  bool viaimp = g.chance(0.3);
  int ok = viaimp ? MESH_ImportFromFile(n, fn.c_str(), "exodusii", nullptr, nullptr) : MESH_ImportFromExodusII(n, fn.c_str(), nullptr, nullptr);
  unlink(fn.c_str());
  CHECK(c, ok == 1, "read.status", "reading returned %d", ok);
  check_import(c, std::string("read.") + (F.dim == 2 ? "2D." : m.dim == 2 ? "S." : ""), n, F, m, rep);
  std::string ty; for (auto& B : F.blk) ty += B.type + ":" + std::to_string(B.conn.size()) + " ";
  c.note("%s into %s, blocks %s, %zu node sets, %zu side sets, %zu+%zu variables", m0.kind.c_str(), rep_name(rep), ty.c_str(), F.nset.size(), F.sset.size(), F.nvar.size(), F.evar.size());
  c.mix(model_hash(m)); c.mix(rep); c.mixs(ty); c.nontrivial = F.nelem() > 1;
  MESH_Delete(n);
}

// ---------------------------------------------------------------- writing
CASE(C14, exodus_write, 3) {
  Rng& g = c.rng;
  GenOpt o; o.size = 3; o.planar = g.chance(0.4);
  RepType rep = g.chance(0.75) ? F1 : F4;
  Model m = g.chance(0.4) ? gen2(g, o) : gen3(g, o);
  int D = m.dim;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  int ndel = 0;
  bool gaps = g.chance(0.3);
  if (gaps) { PV top = all_of(w.m, D); for (void* p : top) if (top.size() - ndel > 1 && g.chance(0.2)) { MEnt_Delete(p, 0); ndel++; } }
  bool sh = shuffle_ids(c, w.m, true, D, 0.3);
  PV el = all_of(w.m, D);
  int ngid = g.range(1, 3);
  for (int d = 0; d < 4; d++) for (void* p : all_of(w.m, d)) { MEnt_Set_GEntDim(p, d == D ? D : g.range(d, D)); MEnt_Set_GEntID(p, g.range(1, ngid + (d == D ? 0 : 3))); }
  if (g.chance(0.5)) for (void* p : el) { int n = D == 3 ? (int)MR_ElementType(p) : MF_Num_Vertices(p); MEnt_Set_GEntID(p, 10 * n + g.below(2)); }       // blocks of one type
  // sides that can be in a side set
  PV side; for (void* p : all_of(w.m, D - 1)) { List_ptr l = D == 3 ? MF_Regions(p) : ME_Faces(p); int n = l ? List_Num_Entries(l) : 0; if (l) List_Delete(l); if (n == 1 || (n == 2 && D == 3 && g.chance(0.1))) side.push_back(p); }
  PV used; { std::set<void*> s; for (void* p : el) for (void* q : take(D == 3 ? MR_Vertices(p) : MF_Vertices(p, 1, 0))) s.insert(q); for (void* q : all_of(w.m, 0)) if (s.count(q)) used.push_back(q); }
  auto sets = [&](const char* pre, MType dim, const PV& from, int n) {
    for (int i = 0; i < n; i++) {
      std::string nm = pre + std::to_string(i * 7 + g.range(1, 6)); MSet_ptr s = MSet_New(w.m, nm.c_str(), dim); double p = g.unit();
      for (void* q : from) if (g.chance(p)) MSet_Add(s, q);
    }
  };
  sets("nodeset_", MVERTEX, used, g.below(3)); sets("sideset_", D == 3 ? MFACE : MEDGE, side, g.below(3)); sets("elemset_", D == 3 ? MREGION : MFACE, el, g.below(3));
  sets("other", MVERTEX, used, g.below(2)); sets("elemset_9", MVERTEX, used, g.below(2));
  std::vector<MType> dims = {MVERTEX, D == 3 ? MREGION : MFACE};
  if (g.chance(0.3)) dims.push_back(MALLTYPE);
  if (g.chance(0.3)) dims.push_back(D == 3 ? MFACE : MEDGE);
  int nval = add_attributes(c, w.m, g.below(5), true, dims, "f", 1e6);
  int opts[3] = {0, g.chance(0.3), g.below(2)};
  // keeping the numbers of the vertices is possible only when they are all used and numbered contiguously
  if (gaps || sh || used.size() != w.v.size()) opts[2] = 1;
  bool noopts = g.chance(0.3); if (noopts) { opts[1] = 0; opts[2] = 1; }
  bool geo = opts[1];
  if (geo && D == 3) for (void* p : all_of(w.m, 2)) { List_ptr l = MF_Regions(p); int n = l ? List_Num_Entries(l) : 0; if (l) List_Delete(l); if (n != 1) MEnt_Set_GEntDim(p, 3); else if (MEnt_GEntDim(p) != 3) MEnt_Set_GEntDim(p, 2); }
  if (geo && D == 2) for (void* p : all_of(w.m, 1)) { List_ptr l = ME_Faces(p); int n = l ? List_Num_Entries(l) : 0; if (l) List_Delete(l); if (n != 1) MEnt_Set_GEntDim(p, 2); }
  Dump a = dump_mesh(w.m);
  std::string fn = tmpname(".exo");
  int natt = g.chance(0.2) ? -1 : 0;
  bool viaexp = g.chance(0.3) && natt == 0;
  int ok = viaexp ? MESH_ExportToFile(w.m, fn.c_str(), "exodusii", 0, nullptr, noopts ? nullptr : opts, nullptr) : MESH_ExportToExodusII(w.m, fn.c_str(), natt, nullptr, noopts ? nullptr : opts, nullptr);
  CHECK(c, ok == 1, "write.status", "writing returned %d", ok);
  Dump a2 = dump_mesh(w.m);
  same_dump(c, "write.changed-mesh", a2, a);
  ExoFile F = exo_read(fn.c_str());
  CHECK(c, F.err.empty(), "write.file", "the Exodus library cannot read the file: %s", F.err.c_str());
  std::string k = "write.";
  // vertices: those of elements, all coordinates differ
  CHECK(c, F.x.size() == used.size(), k + "nv", "%zu vertices, should be %zu", F.x.size(), used.size());
  std::map<V3, int> at; for (size_t i = 0; i < F.x.size(); i++) at[F.x[i]] = (int)i;
  std::map<void*, int> vid; bool good = at.size() == F.x.size();
  CHECK(c, good, k + "coords-distinct", "coordinates of vertices coincide");
  int pos = 0;
  for (void* p : used) { double x[3]; MV_Coords(p, x); auto it = at.find(V3{x[0], x[1], x[2]}); CHECK(c, it != at.end(), k + "coords", "no vertex at %.17g %.17g %.17g", x[0], x[1], x[2]); if (it == at.end()) good = false; else { vid[p] = it->second; if (!opts[2]) CHECK(c, it->second == pos, k + "keep-ids", "vertex %d is number %d in the file", pos + 1, it->second + 1); } pos++; }
  if (good) {
    auto vs = [&](void* p) { int d = MEnt_Dim(p); IV o; if (d == 0) o = {vid[p]}; else if (d == 1) { o = {vid[ME_Vertex(p, 0)], vid[ME_Vertex(p, 1)]}; } else for (void* q : take(d == 2 ? MF_Vertices(p, 1, 0) : MR_Vertices(p))) o.push_back(vid[q]); return o; };
    // elements of each block, in order
    std::map<int, PV> blk; for (void* p : el) blk[MEnt_GEntID(p)].push_back(p);
    std::vector<void*> order;
    CHECK(c, F.blk.size() == blk.size(), k + "nblocks", "%zu blocks, should be %zu", F.blk.size(), blk.size());
    for (auto& B : F.blk) {
      CHECK(c, blk.count(B.id), k + "block-id", "unexpected block %d", B.id);
      if (!blk.count(B.id)) { good = false; continue; }
      auto& E = blk[B.id];
      CHECK(c, E.size() == B.conn.size(), k + "block-size", "block %d has %zu elements, should be %zu", B.id, B.conn.size(), E.size());
      if (E.size() != B.conn.size()) { good = false; continue; }
      std::set<int> kinds; for (void* p : E) kinds.insert(D == 3 ? (int)MR_ElementType(p) : MF_Num_Vertices(p));
      std::string ty = kinds.size() > 1 ? (D == 3 ? "NFACED" : "NSIDED") : D == 3 ? (*kinds.begin() == TET ? "TET" : *kinds.begin() == PRISM ? "WEDGE" : *kinds.begin() == HEX ? "HEX" : "NFACED") : *kinds.begin() == 3 ? "TRI" : *kinds.begin() == 4 ? "QUAD" : "NSIDED";
      CHECK(c, ieq(B.type, ty.c_str()), k + "block-type", "block %d is %s, should be %s", B.id, B.type.c_str(), ty.c_str());
      for (size_t i = 0; i < E.size(); i++) {
        order.push_back(E[i]); IV want = vs(E[i]);
        if (D == 2) { CHECK(c, cyc(B.conn[i], want) == 1, k + "face", "element %zu of block %d is %s, should be %s", i, B.id, show(B.conn[i]).c_str(), show(want).c_str()); continue; }
        std::vector<IV> gf, wf, gs, ws; List_ptr rf = MR_Faces(E[i]);
        for (int q = 0; q < List_Num_Entries(rf); q++) { void* f = List_Entry(rf, q); IV v = vs(f); ws.push_back(sorted(v)); if (!MR_FaceDir_i(E[i], q)) std::reverse(v.begin(), v.end()); wf.push_back(v); }
        List_Delete(rf);
        bool nf = ieq(B.type, "NFACED");
        if (nf) for (int q : B.conn[i]) { bool in = q >= 0 && q < (int)F.faces.size(); CHECK(c, in, k + "face-number", "face %d of %zu", q + 1, F.faces.size()); if (in) gs.push_back(sorted(F.faces[q])); }
        else for (auto& s : exo_sides(B.type)) { IV v; for (int q : s) v.push_back(B.conn[i][q]); gf.push_back(v); gs.push_back(sorted(v)); }
        CHECK(c, dedup(gs) == dedup(ws) && gs.size() == ws.size(), k + "region", "element %zu of block %d (%s) has faces %s, should be %s", i, B.id, B.type.c_str(), showk(gs).c_str(), showk(ws).c_str());
        for (auto& v : gf) for (auto& u : wf) if (sorted(u) == sorted(v)) CHECK(c, cyc(u, v) == 1, k + "region-orient", "element %zu of block %d: side %s, should be %s", i, B.id, show(v).c_str(), show(u).c_str());
        if (nf) for (int q : B.conn[i]) if (q >= 0 && q < (int)F.faces.size()) for (auto& u : wf) if (sorted(u) == sorted(F.faces[q])) CHECK(c, cyc(u, F.faces[q]) != 0, k + "face-cycle", "face %s, should be %s or reversed", show(F.faces[q]).c_str(), show(u).c_str());
      }
    }
    // sets
    std::map<int, std::set<IV>> wn, ws, we;
    int i = 0; MSet_ptr S;
    while ((S = MESH_Next_MSet(w.m, &i))) {
      char nm[600]; MSet_Name(S, nm); std::string s = nm; int d = MSet_EntDim(S); size_t u = s.find('_'); std::string pre = s.substr(0, u == std::string::npos ? 0 : u + 1);
      auto* T = pre == "nodeset_" && d == 0 ? &wn : pre == "sideset_" && d == D - 1 ? &ws : pre == "elemset_" && d == D ? &we : nullptr;
      if (!T) continue;
      auto& q = (*T)[atoi(nm + u + 1)]; int j = 0; void* p; while ((p = MSet_Next_Entry(S, &j))) q.insert(sorted(vs(p)));
    }
    if (geo) {
      for (void* p : all_of(w.m, D - 1)) if (MEnt_GEntDim(p) == D - 1) { List_ptr l = D == 3 ? MF_Regions(p) : ME_Faces(p); int n = l ? List_Num_Entries(l) : 0; if (l) List_Delete(l); if (n) ws[MEnt_GEntID(p)].insert(sorted(vs(p))); }
      for (void* p : used) if (MV_GEntDim(p) < 2) wn[MV_GEntDim(p) * 10000 + MV_GEntID(p)].insert(vs(p));
    }
    auto cmp = [&](const char* what, std::map<int, std::set<IV>>& W, std::map<int, std::set<IV>>& G) {
      for (auto& q : W) { CHECK(c, G.count(q.first), k + what + "-missing", "%s %d is not in the file", what, q.first); if (G.count(q.first)) { std::vector<IV> a(G[q.first].begin(), G[q.first].end()), b(q.second.begin(), q.second.end()); CHECK(c, a == b, k + what, "%s %d is %s, should be %s", what, q.first, showk(a).c_str(), showk(b).c_str()); } c.count("sets"); }
      for (auto& q : G) CHECK(c, W.count(q.first), k + what + "-extra", "unexpected %s %d", what, q.first);
    };
    std::map<int, std::set<IV>> gn, gs, ge;
    for (auto& q : F.nset) { auto& t = gn[q.first]; for (int v : q.second) t.insert({v}); }
    for (auto& q : F.sset) { auto& t = gs[q.first]; for (auto& v : q.second) { IV f = exo_side(F, v.first, v.second); CHECK(c, !f.empty(), k + "side-number", "side set %d: no side %d on element %d", q.first, v.second + 1, v.first + 1); t.insert(sorted(f)); } }
    for (auto& q : F.eset) { auto& t = ge[q.first]; for (int v : q.second) { bool in = good && v >= 0 && v < (int)order.size(); CHECK(c, in, k + "elemset-number", "element %d", v + 1); if (in) t.insert(sorted(vs(order[v]))); } }
    cmp("nodeset", wn, gn); cmp("sideset", ws, gs); cmp("elemset", we, ge);
    // variables
    std::map<std::string, std::vector<double>> wv[2];
    i = 0; MAttrib_ptr A;
    while ((A = MESH_Next_Attrib(w.m, &i))) {
      MAttType ty = MAttrib_Get_Type(A); if (ty == INT || ty == POINTER || natt < 0) continue;
      char nm[600]; MAttrib_Get_Name(A, nm); MType d = MAttrib_Get_EntDim(A); int nc = MAttrib_Get_NumComps(A);
      for (int e = 0; e < 2; e++) if (d == MALLTYPE || (int)d == (e ? D : 0)) for (int q = 0; q < (ty == DOUBLE ? 1 : nc); q++) {
        std::string n2 = ty == DOUBLE ? nm : std::string(nm) + "_veccomp" + std::to_string(q);
        auto& V = wv[e][n2]; V.assign(e ? order.size() : used.size(), 0.0);
        size_t x = 0; for (void* p : e ? order : used) { int iv; double dv = 0; void* pv = nullptr; MEnt_Get_AttVal(p, A, &iv, &dv, &pv); V[e ? x : vid[p]] = ty == DOUBLE ? dv : pv ? ((double*)pv)[q] : 0.0; x++; }
      }
    }
    if (good) for (int e = 0; e < 2; e++) {
      auto& G = e ? F.evar : F.nvar; const char* what = e ? "elemvar" : "nodevar"; std::set<std::string> have;
      for (auto& v : G) {
        have.insert(v.name); CHECK(c, wv[e].count(v.name), k + what + "-extra", "unexpected variable %s", v.name.c_str());
        if (wv[e].count(v.name)) for (size_t x = 0; x < v.v.size(); x++) { CHECK(c, v.v[x] == wv[e][v.name][x], k + what, "%s on %zu is %.17g, should be %.17g", v.name.c_str(), x, v.v[x], wv[e][v.name][x]); c.count("variable_values"); }
      }
      for (auto& q : wv[e]) CHECK(c, have.count(q.first), k + what + "-missing", "no variable %s", q.first.c_str());
    }
    if (!c.failed()) {      // and back
      Mesh_ptr n = MESH_New(rep); int r = MESH_ImportFromExodusII(n, fn.c_str(), nullptr, nullptr);
      CHECK(c, r == 1, "back.status", "reading returned %d", r);
      check_import(c, "back.", n, F, exo_model(F), rep);
      MESH_Delete(n);
    }
  }
  unlink(fn.c_str());
  c.note("%s %s%s, %d deleted, %zu blocks, %d attribute values%s", m.kind.c_str(), rep_name(rep), viaexp ? " through export" : "", ndel, F.blk.size(), nval, geo ? ", geometry sets" : "");
  c.mix(model_hash(m)); c.mix(rep); c.mix(nval); c.mix(F.blk.size()); c.nontrivial = el.size() > 1;
  MESH_Delete(w.m);
}
