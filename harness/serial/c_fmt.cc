// C15: GMV and FLAG X3D files; C16: STL, OFF and DX files. Every file is read (and written) here by code that shares nothing with MSTK.
#include "meshcmp.h"
#include "exo.h"
#include <unistd.h>
#include <sys/stat.h>

static std::string tmpbase() {
  static std::atomic<int> n(0); const char* d = getenv("TMPDIR");
  return std::string(d ? d : "/tmp") + "/fm" + std::to_string(getpid()) + "_" + std::to_string(n++);
}
static std::string slurp(const std::string& fn) { std::string s; FILE* f = fopen(fn.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
struct Tok {
  std::vector<std::string> t; size_t i = 0; bool bad = false;
  explicit Tok(const std::string& s) { std::string w; for (char ch : s) { if (isspace((unsigned char)ch)) { if (!w.empty()) t.push_back(w), w.clear(); } else w += ch; } if (!w.empty()) t.push_back(w); }
  bool end() const { return i >= t.size(); }
  std::string s() { if (end()) { bad = true; return ""; } return t[i++]; }
  double d() { std::string w = s(); char* e; double v = strtod(w.c_str(), &e); if (w.empty() || *e) bad = true; return v; }
  int n() { std::string w = s(); char* e; long v = strtol(w.c_str(), &e, 10); if (w.empty() || *e) bad = true; return (int)v; }
  bool is(const char* w) { if (!end() && t[i] == w) { i++; return true; } return false; }
};

// the vertices of a file found again in the mesh by their coordinates
static bool match_points(Ctx& c, const std::string& k, const std::vector<V3>& x, const PV& v, double tol, PV& out) {
  out.assign(x.size(), nullptr); std::set<void*> used;
  CHECK(c, x.size() == v.size(), k + "nv", "%zu vertices, should be %zu", x.size(), v.size());
  for (size_t i = 0; i < x.size(); i++) {
    for (void* p : v) { double q[3]; MV_Coords(p, q); if (std::fabs(q[0] - x[i][0]) <= tol && std::fabs(q[1] - x[i][1]) <= tol && std::fabs(q[2] - x[i][2]) <= tol && !used.count(p)) { out[i] = p; used.insert(p); break; } }
    CHECK(c, out[i], k + "coords", "vertex %zu at %.17g %.17g %.17g is none of the mesh", i, x[i][0], x[i][1], x[i][2]);
    if (!out[i]) return false;
  }
  return x.size() == v.size();
}
static int nadj(List_ptr l) { int n = l ? List_Num_Entries(l) : 0; if (l) List_Delete(l); return n; }

// ---------------------------------------------------------------- GMV
struct GmvCell { std::string type; IV v; std::vector<IV> f; };
struct GmvFace { IV v; int opp = 0, cell = 0; };
struct GmvFile {
  std::vector<V3> x; std::vector<GmvCell> cell; std::vector<GmvFace> face; std::vector<std::string> mat; IV matid;
  std::vector<std::pair<std::string, int>> vn; std::map<std::pair<std::string, int>, std::vector<double>> var; std::string err; bool bynode = false;
};
static GmvFile gmv_read(const std::string& fn) {
  GmvFile F; Tok t(slurp(fn));
  auto fail = [&](const char* w) { if (F.err.empty()) F.err = std::string(w) + " before token " + std::to_string(t.i) + " '" + (t.i < t.t.size() ? t.t[t.i] : "") + "'"; };
  if (t.s() != "gmvinput" || t.s() != "ascii") { fail("header"); return F; }
  bool done = false;
  while (!done && !t.end() && !t.bad && F.err.empty()) {
    std::string w = t.s();
    if (w == "codename" || w == "simdate") t.s();
    else if (w == "comments") { while (!t.end() && t.s() != "endcomm"); }
    else if (w == "nodev") { int n = t.n(); for (int i = 0; i < n; i++) { V3 p; for (int j = 0; j < 3; j++) p[j] = t.d(); F.x.push_back(p); } }
    else if (w == "nodes") { int n = t.n(); F.x.assign(n, {0, 0, 0}); for (int j = 0; j < 3; j++) for (int i = 0; i < n; i++) F.x[i][j] = t.d(); F.bynode = true; }
    else if (w == "cells") {
      int n = t.n();
      for (int i = 0; i < n && !t.bad; i++) {
        GmvCell C; C.type = t.s(); int k = t.n();
        if (C.type == "general") { IV q; for (int j = 0; j < k; j++) q.push_back(t.n()); for (int j = 0; j < k; j++) { IV f; for (int a = 0; a < q[j] && !t.bad; a++) f.push_back(t.n() - 1); C.f.push_back(f); } }
        else { static const std::map<std::string, int> nn = {{"line", 2}, {"tri", 3}, {"quad", 4}, {"tet", 4}, {"pyramid", 5}, {"prism", 6}, {"hex", 8}}; if (C.type.substr(0, 5) != "vface" && (!nn.count(C.type) || nn.at(C.type) != k)) { fail("cell type or count"); break; } for (int j = 0; j < k && !t.bad; j++) C.v.push_back(t.n() - 1); }
        F.cell.push_back(C);
      }
    }
    else if (w == "vfaces") { int n = t.n(); for (int i = 0; i < n && !t.bad; i++) { GmvFace f; int k = t.n(); t.n(); f.opp = t.n(); t.n(); f.cell = t.n(); for (int j = 0; j < k && !t.bad; j++) f.v.push_back(t.n() - 1); F.face.push_back(f); } }
    else if (w == "material") { int n = t.n(), on = t.n(); if (on) fail("materials on nodes"); for (int i = 0; i < n; i++) F.mat.push_back(t.s()); for (size_t i = 0; i < F.cell.size(); i++) F.matid.push_back(t.n()); }
    else if (w == "variable") {
      while (!t.bad) { std::string nm = t.s(); if (nm == "endvars") break; int on = t.n(); if (on != 0 && on != 1) { fail("variable position"); break; } auto& q = F.var[{nm, on}]; F.vn.push_back({nm, on}); q.clear(); for (size_t i = 0; i < (on ? F.x.size() : F.cell.size()); i++) q.push_back(t.d()); if (t.bad) { t.i--; fail(("variable " + nm).c_str()); } }
    }
    else if (w == "endgmv") done = true;
    else fail(("unknown keyword " + w).c_str());
  }
  if (t.bad) fail("bad number or end of file");
  if (!done) fail("no endgmv"); else if (!t.end()) fail("text after endgmv");
  return F;
}
static int gmv_type(const std::string& s) { return s == "tet" ? T_TET : s == "pyramid" ? T_PYR : s == "prism" ? T_PRISM : s == "hex" ? T_HEX : -1; }
// position in the file -> position in MSTK's order
static const IV& gmv_tmpl(int type) { static const IV t[6] = {{}, {0,2,1,3}, {4,0,1,2,3}, {3,4,5,0,1,2}, {4,5,6,7,0,1,2,3}, {}}; return t[type]; }

CASE(C15, gmv_write, 4) {
  Rng& g = c.rng;
  GenOpt o; o.size = 3; o.planar = g.chance(0.4);
  RepType rep = g.chance(0.7) ? F1 : F4;
  Model m = g.chance(0.4) ? gen2(g, o) : gen3(g, o);
  int D = m.dim;
  if (g.chance(0.15)) { rep = g.chance(0.5) ? R1 : R2; bool ok = true; for (auto& R : m.r) if (!R.fv.empty()) ok = false; if (m.nxf || !m.xe.empty() || (D == 3 && !m.f.empty())) ok = false; if (!ok) rep = F1; }
  bool full = rep == F1 || rep == F4;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  int ndel = 0;
  if (g.chance(0.3)) { PV top = all_of(w.m, D); for (void* p : top) if (top.size() - ndel > 1 && g.chance(0.2)) { MEnt_Delete(p, 0); ndel++; } if (full && g.chance(0.5)) { for (int d = D - 1; d >= 0; d--) for (void* p : all_of(w.m, d)) if (!nadj(d == 0 ? MV_Edges(p) : d == 1 ? ME_Faces(p) : MF_Regions(p)) && g.chance(0.9)) MEnt_Delete(p, 0); } }
  int ngid = g.chance(0.2) ? 40 : g.range(1, 4);
  for (int d = 0; d < (full ? 4 : 1); d++) for (void* p : all_of(w.m, d)) { MEnt_Set_GEntDim(p, d == D ? D : g.range(d, D)); MEnt_Set_GEntID(p, g.range(d == 3 ? 1 : 0, ngid)); }
  if (!full) for (void* p : all_of(w.m, D)) MEnt_Set_GEntID(p, g.range(1, ngid));
  if (g.chance(0.3)) { IV ids; PV vs = all_of(w.m, 0); for (size_t i = 0; i < vs.size(); i++) ids.push_back((int)i + 1); g.shuffle(ids); for (size_t i = 0; i < vs.size(); i++) MV_Set_ID(vs[i], ids[i]); }
  for (int d = 0; d < (full ? 4 : 1); d++) for (void* p : all_of(w.m, d)) MEnt_Set_GlobalID(p, g.range(0, 1000));
  int nval = add_attributes(c, w.m, g.below(5), true, {MVERTEX, MFACE, MREGION, MEDGE, MALLTYPE}, "g", 1e4);
  // cells: whatever bounds nothing
  PV cell;
  for (int d = full ? 1 : D; d <= 3; d++) for (void* p : all_of(w.m, d)) if (d == 3 || d == D || !nadj(d == 1 ? ME_Faces(p) : MF_Regions(p))) { if (!full || d == 3 || !nadj(d == 1 ? ME_Faces(p) : MF_Regions(p))) cell.push_back(p); }
  int nd[4] = {0, 0, 0, 0}; for (void* p : cell) nd[MEnt_Dim(p)]++;
  int opts[2] = {g.below(2), nd[3] && full ? g.below(2) : 0}; bool noopts = g.chance(0.3); if (noopts) opts[0] = opts[1] = 0;
  if (nd[2] || nd[1]) opts[1] = 0;                 // only regions can be written by their faces
  std::vector<std::string> names; { int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(w.m, &i))) { char nm[600]; MAttrib_Get_Name(a, nm); names.push_back(nm); } }
  int natt = 0; std::vector<const char*> an; std::set<std::string> sel(names.begin(), names.end());
  if (g.chance(0.2)) natt = -1, sel.clear();
  else if (g.chance(0.3) && !names.empty()) { sel.clear(); for (auto& s : names) if (g.chance(0.5)) { an.push_back(s.c_str()); sel.insert(s); } if (an.empty()) { an.push_back(names[0].c_str()); sel.insert(names[0]); } natt = (int)an.size(); }
  Dump a = dump_mesh(w.m);
  std::string fn = tmpbase() + ".gmv";
  int ok = g.chance(0.3) ? MESH_ExportToFile(w.m, fn.c_str(), "gmv", natt, an.data(), noopts ? nullptr : opts, nullptr) : MESH_ExportToGMV(w.m, fn.c_str(), natt, an.data(), noopts ? nullptr : opts, nullptr);
  CHECK(c, ok == 1, "gmv.write.status", "writing returned %d", ok);
  Dump a2 = dump_mesh(w.m); same_dump(c, "gmv.write.changed-mesh", a2, a);
  GmvFile F = gmv_read(fn); std::string k = "gmv.write.";
  CHECK(c, F.err.empty(), k + "file", "not a GMV file: %s", F.err.c_str());
  PV node; bool good = F.err.empty() && match_points(c, k, F.x, w.v.empty() ? w.v : all_of(w.m, 0), 2e-12, node);
  CHECK(c, F.bynode == (opts[0] == 1), k + "opts0", "vertices written %s", F.bynode ? "by coordinate" : "by vertex");
  CHECK(c, F.cell.size() == cell.size(), k + "ncells", "%zu cells, should be %zu", F.cell.size(), cell.size());
  if (good && F.cell.size() == cell.size()) {
    std::map<void*, int> num; for (size_t i = 0; i < node.size(); i++) num[node[i]] = (int)i;
    auto cycle = [&](const PV& l) { IV v; for (void* q : l) v.push_back(num[q]); return v; };
    std::map<std::pair<int, std::vector<IV>>, std::vector<void*>> by;      // dimension, sorted faces -> cells
    auto outw = [&](void* r) { std::vector<IV> f; if (full) { List_ptr l = MR_Faces(r); for (int q = 0; q < List_Num_Entries(l); q++) { IV v = cycle(take(MF_Vertices(List_Entry(l, q), 1, 0))); if (!MR_FaceDir_i(r, q)) std::reverse(v.begin(), v.end()); f.push_back(v); } List_Delete(l); } else { IV v = cycle(take(MR_Vertices(r))); static const std::map<int, int> tt = {{TET, T_TET}, {PYRAMID, T_PYR}, {PRISM, T_PRISM}, {HEX, T_HEX}}; for (auto& s : std_faces(tt.at(MR_ElementType(r)))) { IV q; for (int z : s) q.push_back(v[z]); f.push_back(q); } } return f; };
    auto keyf = [](std::vector<IV> f) { for (auto& q : f) q = sorted(q); std::sort(f.begin(), f.end()); return f; };
    for (void* p : cell) { int d = MEnt_Dim(p); by[{d, d == 3 ? keyf(outw(p)) : std::vector<IV>{d == 2 ? sorted(cycle(take(MF_Vertices(p, 1, 0)))) : sorted(IV{num[ME_Vertex(p, 0)], num[ME_Vertex(p, 1)]})}}].push_back(p); }
    PV is(F.cell.size(), nullptr); std::vector<bool> usedf(F.face.size(), false);
    for (size_t i = 0; i < F.cell.size(); i++) {
      GmvCell& C = F.cell[i]; int ty = gmv_type(C.type); std::vector<IV> f; int d = 3;
      bool vok = true; for (int q : C.v) if (C.type.substr(0, 5) != "vface" && (q < 0 || q >= (int)node.size())) vok = false;
      for (auto& u : C.f) for (int q : u) if (q < 0 || q >= (int)node.size()) vok = false;
      CHECK(c, vok, k + "cell-vertex", "cell %zu: vertex out of range", i); if (!vok) { good = false; break; }
      if (ty > 0) { IV v(C.v.size()); for (size_t j = 0; j < v.size(); j++) v[gmv_tmpl(ty)[j]] = C.v[j]; for (auto& s : std_faces(ty)) { IV q; for (int z : s) q.push_back(v[z]); f.push_back(q); } }
      else if (C.type == "vface3d") { for (int q : C.v) { bool in = q >= 0 && q < (int)F.face.size(); CHECK(c, in, k + "vface-number", "cell %zu: face %d", i, q + 1); if (!in) { good = false; break; } CHECK(c, !usedf[q], k + "vface-twice", "face %d is listed twice", q + 1); usedf[q] = true; CHECK(c, F.face[q].cell == (int)i + 1, k + "vface-cell", "face %d of cell %zu says it belongs to cell %d", q + 1, i + 1, F.face[q].cell); f.push_back(F.face[q].v); } }
      else if (C.type == "general" && C.f.size() > 1) f = C.f;
      else { d = C.type == "line" ? 1 : 2; f = {C.type == "general" ? C.f[0] : C.v}; }
      if (!good) break;
      auto it = by.find({d, keyf(f)});
      CHECK(c, it != by.end() && !it->second.empty(), k + "cell", "cell %zu (%s) with faces %s is none of the mesh", i, C.type.c_str(), showk(keyf(f)).c_str());
      if (it == by.end() || it->second.empty()) { good = false; break; }
      void* p = is[i] = it->second.back(); it->second.pop_back();
      if (d == 2) CHECK(c, cyc(cycle(take(MF_Vertices(p, 1, 0))), f[0]) == 1, k + "face", "cell %zu is %s, not in the order of the face", i, show(f[0]).c_str());
      if (d == 3) for (auto& u : outw(p)) for (auto& v : f) if (sorted(u) == sorted(v)) CHECK(c, cyc(u, v) == 1, k + "orient." + C.type, "cell %zu (%s) has side %s, should be %s", i, C.type.c_str(), show(v).c_str(), show(u).c_str());
      if (d == 3 && !opts[1]) { int want = MR_ElementType(p); std::string wt = want == TET ? "tet" : want == PYRAMID ? "pyramid" : want == PRISM ? "prism" : want == HEX ? "hex" : ""; if (!wt.empty()) CHECK(c, C.type == wt, k + "type", "a %s is written as %s", wt.c_str(), C.type.c_str()); }
    }
    if (good && opts[1]) for (size_t q = 0; q < F.face.size(); q++) {
      CHECK(c, usedf[q], k + "vface-unused", "face %zu belongs to no cell", q + 1); GmvFace& A = F.face[q];
      void* f = nullptr; List_ptr l = MR_Faces(is[A.cell - 1]); for (int z = 0; z < List_Num_Entries(l); z++) if (sorted(cycle(take(MF_Vertices(List_Entry(l, z), 1, 0)))) == sorted(A.v)) f = List_Entry(l, z); List_Delete(l);
      int n = f ? nadj(MF_Regions(f)) : 0;
      CHECK(c, (A.opp != 0) == (n == 2), k + "vface-opp", "face %zu with %d regions has opposite %d", q + 1, n, A.opp);
      if (A.opp > 0 && A.opp <= (int)F.face.size()) { GmvFace& B = F.face[A.opp - 1]; CHECK(c, B.opp == (int)q + 1 && sorted(A.v) == sorted(B.v), k + "vface-pair", "faces %zu and %d do not match", q + 1, A.opp); CHECK(c, cyc(A.v, B.v) == -1, k + "vface-pair-orient", "faces %zu and %d are oriented the same way", q + 1, A.opp); }
    }
    if (good) {
      std::map<std::pair<std::string, int>, std::vector<double>> want;
      for (size_t i = 0; i < is.size(); i++) {
        int id = MEnt_GEntID(is[i]); bool in = i < F.matid.size() && F.matid[i] >= 1 && F.matid[i] <= (int)F.mat.size();
        CHECK(c, in, k + "material-number", "cell %zu has material %d of %zu", i, i < F.matid.size() ? F.matid[i] : -1, F.mat.size());
        if (in) CHECK(c, F.mat[F.matid[i] - 1] == "mat" + std::to_string(id), k + "material", "cell %zu has material %s, should be mat%d", i, F.mat[F.matid[i] - 1].c_str(), id);
        want[{"itetclr", 0}].push_back(id); want[{"Cell_GlobalID", 0}].push_back(MEnt_GlobalID(is[i])); want[{"Cell_MasterPID", 0}].push_back(MEnt_MasterParID(is[i]));
      }
      std::set<std::string> ms(F.mat.begin(), F.mat.end()); CHECK(c, ms.size() == F.mat.size(), k + "material-names", "material names repeat");
      for (void* p : node) { want[{"icr1", 1}].push_back(3 - MV_GEntDim(p)); want[{"Node_GlobalID", 1}].push_back(MEnt_GlobalID(p)); want[{"Node_MasterPID", 1}].push_back(MEnt_MasterParID(p)); }
      int i = 0; MAttrib_ptr A;
      while ((A = MESH_Next_Attrib(w.m, &i))) {
        char nm[600]; MAttrib_Get_Name(A, nm); MAttType ty = MAttrib_Get_Type(A); int d = MAttrib_Get_EntDim(A);
        if (!sel.count(nm) || (ty != INT && ty != DOUBLE)) continue;
        auto val = [&](void* p) { int iv = 0; double dv = 0; void* pv = nullptr; MEnt_Get_AttVal(p, A, &iv, &dv, &pv); return ty == INT ? (double)iv : dv; };
        if (d == MVERTEX || d == MALLTYPE) for (void* p : node) want[{nm, 1}].push_back(val(p));
        if (d != MVERTEX && (d == MALLTYPE || nd[d])) { if (d != MALLTYPE && (size_t)nd[d] != is.size()) continue; for (void* p : is) want[{nm, 0}].push_back(val(p)); }
      }
      for (auto& q : want) {
        CHECK(c, F.var.count(q.first), k + "var-missing", "no variable %s on %s", q.first.first.c_str(), q.first.second ? "nodes" : "cells");
        if (F.var.count(q.first)) { auto& V = F.var[q.first]; for (size_t j = 0; j < V.size(); j++) { CHECK(c, std::fabs(V[j] - q.second[j]) <= 1.01e-6, k + "var", "%s on %zu is %.17g, should be %.17g", q.first.first.c_str(), j, V[j], q.second[j]); c.count("variable_values"); } }
      }
      auto zero = [](const std::vector<double>& v) { for (double x : v) if (x != 0) return false; return true; };      // an attribute of regions on a surface comes out as zeros
      bool mixed = (nd[1] > 0) + (nd[2] > 0) + (nd[3] > 0) > 1;
      for (auto& q : F.var) CHECK(c, want.count(q.first) || ((mixed || zero(q.second)) && q.first.second == 0), k + "var-extra", "unexpected variable %s on %s", q.first.first.c_str(), q.first.second ? "nodes" : "cells");
      CHECK(c, F.vn.size() == F.var.size(), k + "var-twice", "a variable is written twice");
    }
    if (good && !c.failed() && !nd[1] && !(nd[2] && nd[3])) {        // and back
      Mesh_ptr n = MESH_New(F1); int r = MESH_ImportFromGMV(n, fn.c_str(), nullptr); CHECK(c, r == 1, "gmv.back.status", "reading returned %d", r);
      MView b; b.index_by_order(n); Model m2; m2.dim = D; m2.kind = m.kind; m2.x = F.x;
      for (size_t i = 0; i < is.size(); i++) if (D == 2) { MFaceM f; f.v = cycle(take(MF_Vertices(is[i], 1, 0))); m2.f.push_back(f); } else { MRegM R; R.type = T_POLY; R.fv = outw(is[i]); R.type = poly_type(R.fv); m2.r.push_back(R); }
      verify(c, b, m2, VF_IDS | VF_COORDS | VF_COMMON | (D == 3 ? VF_ORIENT : VF_FACEORIENT | VF_ORIENT), "gmv.back.");
      PV el = all_of(n, D); for (size_t i = 0; i < el.size() && i < F.matid.size(); i++) { CHECK(c, MEnt_GEntID(el[i]) == F.matid[i] && MEnt_GEntDim(el[i]) == D, "gmv.back.class", "cell %zu of material %d classified %d,%d", i, F.matid[i], MEnt_GEntDim(el[i]), MEnt_GEntID(el[i])); }
      MESH_Delete(n);
    }
  }
  unlink(fn.c_str());
  c.note("%s %s, %d deleted, cells %d+%d+%d, opts %d %d, natt %d, %d attribute values", m.kind.c_str(), rep_name(rep), ndel, nd[1], nd[2], nd[3], opts[0], opts[1], natt, nval);
  c.mix(model_hash(m)); c.mix(rep); c.mix(nval); c.mix(opts[0] * 2 + opts[1]); c.nontrivial = cell.size() > 1;
  MESH_Delete(w.m);
}

CASE(C15, gmv_read, 3) {
  Rng& g = c.rng;
  GenOpt o; o.size = 3; o.planar = g.chance(0.4);
  static const RepType reps[] = {F1, F1, F1, F4, R1, R2};
  RepType rep = reps[g.below(6)]; bool full = rep == F1 || rep == F4;
  int form = g.below(3);                    // 0 cells, 1 vface cells, 2 faces
  if (!full) { form = 0; o.standard_only = true; }
  bool three = g.chance(0.6);
  if (form) o.manifold = true;
  Model m = three ? gen3(g, o) : gen2(g, o); int D = m.dim; m.nxf = 0; m.xe.clear();
  if (D == 3) { m.f.clear(); compact(m); }
  Topo t = topo(m);
  std::string fn = tmpbase() + ".gmv"; FILE* f = fopen(fn.c_str(), "w"); if (!f) return;
  auto sep = [&] { fputs(g.chance(0.1) ? "\n" : g.chance(0.2) ? "   " : " ", f); };
  fprintf(f, "gmvinput ascii\n");
  if (g.chance(0.4)) fprintf(f, "comments\n some text about nodes 3 and cells 7 \nendcomm\n");
  if (g.chance(0.4)) fprintf(f, "codename X3\nsimdate 01/02/03\n");
  size_t nc = D == 3 ? m.r.size() : m.f.size();
  if (g.chance(0.5)) { fprintf(f, "nodev %zu\n", m.x.size()); for (auto& p : m.x) { for (int j = 0; j < 3; j++) { fprintf(f, "%.17g", p[j]); sep(); } fputs("\n", f); } }
  else { fprintf(f, "nodes %zu\n", m.x.size()); for (int j = 0; j < 3; j++) { for (auto& p : m.x) { fprintf(f, "%.17g", p[j]); sep(); } fputs("\n", f); } }
  auto put = [&](const IV& v) { for (int q : v) { sep(); fprintf(f, "%d", q + 1); } };
  std::string types; bool nodata = false;
  if (form == 2) {
    if (D == 2) { nodata = true; fprintf(f, "faces %zu 0\n", m.f.size()); for (auto& F : m.f) { fprintf(f, "%zu", F.v.size()); put(F.v); fprintf(f, " 0 0\n"); } }
    else { fprintf(f, "faces %zu %zu\n", t.f.size(), nc); for (size_t i = 0; i < t.f.size(); i++) { fprintf(f, "%zu", t.f[i].size()); put(t.f[i]); int l = 0, r = 0; for (size_t q = 0; q < nc; q++) for (auto& z : t.rf[q]) if (z.first == (int)i) (z.second ? l : r) = (int)q + 1; fprintf(f, " %d %d\n", l, r); } }
    types = "faces";
  } else {
    fprintf(f, "cells %zu\n", nc);
    std::vector<GmvFace> vf; std::map<IV, int> first;
    auto vface = [&](const IV& v, int cellid) { GmvFace A; A.v = v; A.cell = cellid; int id = (int)vf.size() + 1; auto it = first.find(sorted(v)); if (it != first.end()) { A.opp = it->second; vf[it->second - 1].opp = id; } else first[sorted(v)] = id; vf.push_back(A); return id; };
    for (size_t i = 0; i < nc; i++) {
      if (form == 1) {
        std::vector<IV> s; if (D == 3) { s = reg_faces(m.r[i]); g.shuffle(s); for (auto& q : s) std::rotate(q.begin(), q.begin() + g.below((int)q.size()), q.end()); } else for (size_t j = 0; j < m.f[i].v.size(); j++) s.push_back({m.f[i].v[j], m.f[i].v[(j + 1) % m.f[i].v.size()]});
        fprintf(f, "vface%dd %zu ", D, s.size()); for (auto& q : s) fprintf(f, " %d", vface(q, (int)i + 1)); fputs("\n", f);
      } else if (D == 2) {
        const IV& v = m.f[i].v; if (v.size() == 3 && g.chance(0.9)) fprintf(f, "tri 3 "); else if (v.size() == 4 && g.chance(0.9)) fprintf(f, "quad 4 "); else fprintf(f, "general 1\n%zu\n", v.size());
        put(v); fputs("\n", f);
      } else {
        MRegM& R = m.r[i];
        if (R.fv.empty() && (!full || g.chance(0.8))) { static const char* n[] = {"", "tet 4", "pyramid 5", "prism 6", "hex 8"}; fprintf(f, "%s", n[R.type]); IV v; for (int q : gmv_tmpl(R.type)) v.push_back(R.v[q]); put(v); }
        else { auto s = reg_faces(R); g.shuffle(s); R.type = poly_type(s); R.fv = s; R.v.clear(); fprintf(f, "general %zu\n", s.size()); for (auto& q : s) fprintf(f, " %zu", q.size()); fputs("\n", f); for (auto& q : s) { put(q); fputs("\n", f); } }
        fputs("\n", f);
      }
    }
    if (form == 1) {
      // a number refers to a face of the opposite cell that may come before or after
      fprintf(f, "vfaces %zu\n", vf.size()); for (auto& A : vf) { fprintf(f, "%zu 1 %d 1 %d ", A.v.size(), A.opp, A.cell); put(A.v); fputs("\n", f); }
    }
    types = form == 1 ? "vface" : "cells";
  }
  IV mat, tcl, icr; std::vector<std::pair<std::string, int>> vn; std::vector<std::vector<double>> vv;
  if (!nodata && g.chance(0.6)) { int n = g.range(1, 5); fprintf(f, "material %d 0\n", n); for (int i = 0; i < n; i++) fprintf(f, "stuff%d\n", i); for (size_t i = 0; i < nc; i++) { mat.push_back(g.range(1, n)); fprintf(f, "%d", mat.back()); sep(); } fputs("\n", f); }
  bool anyv = g.chance(0.7);
  if (anyv) {
    fprintf(f, "variable\n"); int n = g.below(5); bool t1 = false, t2 = false;
    for (int i = 0; i < n; i++) {
      int kind = g.below(4);
      if (kind == 0 && !t1 && !nodata) { t1 = true; fprintf(f, "itetclr 0\n"); for (size_t q = 0; q < nc; q++) { tcl.push_back(g.range(1, 30)); fprintf(f, "%d", tcl.back()); sep(); } }
      else if (kind == 1 && !t2) { t2 = true; fprintf(f, "icr1 1\n"); for (size_t q = 0; q < m.x.size(); q++) { icr.push_back(g.range(0, 3)); fprintf(f, "%f", (double)icr.back()); sep(); } }
      else { int on = nodata ? 1 : g.below(2); std::string nm = "w" + std::to_string(i) + (g.chance(0.3) ? "_long_name" : ""); fprintf(f, "%s %d\n", nm.c_str(), on); std::vector<double> v; for (size_t q = 0; q < (on ? m.x.size() : nc); q++) { v.push_back(g.chance(0.2) ? 0.0 : g.real(-1e5, 1e5)); fprintf(f, "%.17g", v.back()); sep(); } vn.push_back({nm, on}); vv.push_back(v); }
      fputs("\n", f);
    }
    fprintf(f, "endvars\n");
  }
  if (g.chance(0.2)) { fprintf(f, "nodeids\n"); for (size_t i = 0; i < m.x.size(); i++) { fprintf(f, "%zu", m.x.size() - i); sep(); } fputs("\n", f); }
  if (g.chance(0.2) && !nodata) { fprintf(f, "cellids\n"); for (size_t i = 0; i < nc; i++) { fprintf(f, "%zu", nc - i); sep(); } fputs("\n", f); }
  fprintf(f, "endgmv\n"); fclose(f);
  Mesh_ptr n = MESH_New(rep);
  int ok = g.chance(0.3) ? MESH_ImportFromFile(n, fn.c_str(), "gmv", nullptr, nullptr) : MESH_ImportFromGMV(n, fn.c_str(), nullptr);
  unlink(fn.c_str()); std::string k = "gmv.read." + types + ".";
  CHECK(c, ok == 1, k + "status", "reading returned %d", ok);
  CHECK(c, MESH_RepType(n) == rep, k + "rep", "representation changed");
  MView w; w.index_by_order(n);
  CHECK(c, w.v.size() == m.x.size(), k + "nv", "%zu vertices, should be %zu", w.v.size(), m.x.size());
  if (w.v.size() == m.x.size()) {
    if (form) for (auto& R : m.r) { R.fv = reg_faces(R); R.type = poly_type(R.fv); R.v.clear(); }
    verify(c, w, m, VF_IDS | VF_COORDS | VF_COMMON | (D == 3 ? VF_ORIENT | VF_TEMPLATE : VF_FACEORIENT | VF_ORIENT), k);
    PV el = all_of(n, D);
    for (size_t i = 0; i < el.size() && i < nc; i++) {
      IV want = D == 3 ? t.rv[i] : sorted(m.f[i].v), got = D == 3 ? w.R(el[i]) : w.F(el[i]);
      CHECK(c, got == want, k + "cell", "cell %zu has vertices %s, should be %s", i, show(got).c_str(), show(want).c_str());
      int cl = !mat.empty() ? mat[i] : !tcl.empty() ? tcl[i] : -1;
      if (cl >= 0) CHECK(c, MEnt_GEntID(el[i]) == cl && MEnt_GEntDim(el[i]) == D, k + "class", "cell %zu classified %d,%d, should be %d,%d", i, MEnt_GEntDim(el[i]), MEnt_GEntID(el[i]), D, cl);
    }
    if (!icr.empty()) for (size_t i = 0; i < icr.size(); i++) CHECK(c, MV_GEntDim(w.v[i]) == 3 - icr[i], k + "icr", "vertex %zu with %d constraints classified on dimension %d", i, icr[i], MV_GEntDim(w.v[i]));
    auto att = [&](const std::string& nm, int dim) { int i = 0; MAttrib_ptr A; while ((A = MESH_Next_Attrib(n, &i))) { char b[600]; MAttrib_Get_Name(A, b); if (nm == b && (int)MAttrib_Get_EntDim(A) == dim) return A; } return (MAttrib_ptr) nullptr; };
    if (!icr.empty()) vn.push_back({"icr1", 1}), vv.push_back(std::vector<double>(icr.begin(), icr.end()));
    if (!tcl.empty()) vn.push_back({"itetclr", 0}), vv.push_back(std::vector<double>(tcl.begin(), tcl.end()));
    CHECK(c, (size_t)MESH_Num_Attribs(n) == vn.size(), k + "natt", "%d attributes, should be %zu", MESH_Num_Attribs(n), vn.size());
    for (size_t q = 0; q < vn.size(); q++) {
      MAttrib_ptr A = att(vn[q].first, vn[q].second ? 0 : D); CHECK(c, A, k + "var-missing", "no attribute %s", vn[q].first.c_str()); if (!A) continue;
      PV& on = vn[q].second ? w.v : el;
      for (size_t i = 0; i < on.size() && i < vv[q].size(); i++) { int iv = 0; double dv = 0; void* pv; int has = MEnt_Get_AttVal(on[i], A, &iv, &dv, &pv); double gv = MAttrib_Get_Type(A) == INT ? iv : dv; CHECK(c, gv == vv[q][i] && (has || gv == 0), k + "var", "%s on %zu is %.17g, should be %.17g", vn[q].first.c_str(), i, gv, vv[q][i]); c.count("variable_values"); }
    }
  }
  c.note("%s into %s as %s, %zu variables", m.kind.c_str(), rep_name(rep), types.c_str(), vn.size());
  c.mix(model_hash(m)); c.mix(rep); c.mixs(types); c.mix(vn.size()); c.nontrivial = nc > 1;
  MESH_Delete(n);
}
#include "fmt_x3d.inc"

// ---------------------------------------------------------------- STL, OFF, DX
static Model surf(Ctx& c, bool tri) {
  Rng& g = c.rng; GenOpt o; o.size = 4; o.planar = g.chance(0.4);
  Model m = gen2(g, o);
  if (tri) { std::vector<MFaceM> f; for (auto& F : m.f) for (size_t i = 1; i + 1 < F.v.size(); i++) { MFaceM T; T.v = {F.v[0], F.v[i], F.v[i + 1]}; f.push_back(T); } m.f = f; }
  return m;
}
static void gaps(Ctx& c, MView& w, int D) {
  Rng& g = c.rng; int ndel = 0;
  if (g.chance(0.4)) { PV top = all_of(w.m, D); for (void* p : top) if (top.size() - ndel > 1 && g.chance(0.25)) { MEnt_Delete(p, 0); ndel++; } }
  if (g.chance(0.3)) for (void* p : all_of(w.m, 0)) if ((w.rep == F1 || w.rep == F4) ? !nadj(MV_Edges(p)) : false) MV_Delete(p, 0);
  if (ndel) c.count("meshes_with_gaps_in_ids");
}

CASE(C16, stl, 3) {
  Rng& g = c.rng; int what = g.below(8);      // 6: polygons, 7: solid
  GenOpt o; o.size = 2; Model m = what == 7 ? gen3(g, o) : surf(c, what != 6);
  RepType rep = what == 7 ? F1 : g.pick(std::vector<RepType>{F1, F1, F4, R1, R2, R4});
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  if (what < 6) gaps(c, w, 2);
  shuffle_ids(c, w.m, rep == F1 || rep == F4, m.dim, 0.3);
  bool tri = m.dim == 2; PV fs = all_of(w.m, 2); for (void* p : fs) if (MF_Num_Vertices(p) != 3) tri = false;
  if (MESH_Num_Regions(w.m)) tri = false;
  Dump a = dump_mesh(w.m); std::string fn = tmpbase() + ".stl";
  int ok = g.chance(0.5) ? MESH_ExportToSTL(w.m, fn.c_str()) : MESH_ExportToFile(w.m, fn.c_str(), "stl", 0, nullptr, nullptr, nullptr);
  Dump b = dump_mesh(w.m); same_dump(c, "stl.changed-mesh", b, a);
  CHECK(c, ok == (tri ? 1 : 0), "stl.status", "writing a %s mesh returned %d", tri ? "triangle" : m.dim == 3 ? "solid" : "polygon", ok);
  if (tri) {
    Tok t(slurp(fn)); std::vector<std::vector<V3>> got; std::vector<V3> nrm;
    bool fine = t.is("solid"); if (fine && !t.end() && t.t[t.i] != "facet" && t.t[t.i] != "endsolid") t.s();
    while (fine && t.is("facet")) { fine = t.is("normal"); V3 n; for (int j = 0; j < 3; j++) n[j] = t.d(); fine = fine && t.is("outer") && t.is("loop"); std::vector<V3> q; while (t.is("vertex")) { V3 p; for (int j = 0; j < 3; j++) p[j] = t.d(); q.push_back(p); } fine = fine && q.size() == 3 && t.is("endloop") && t.is("endfacet") && !t.bad; got.push_back(q); nrm.push_back(n); }
    fine = fine && t.is("endsolid") && !t.bad;
    CHECK(c, fine, "stl.syntax", "not an STL file at token %zu of %zu", t.i, t.t.size());
    CHECK(c, got.size() == fs.size(), "stl.count", "%zu facets, should be %zu", got.size(), fs.size());
    for (size_t i = 0; i < got.size() && i < fs.size() && fine; i++) {
      int n; double x[MAXPV2][3]; MF_Coords(fs[i], &n, x); bool eq = false;
      for (int r = 0; r < 3 && !eq; r++) { eq = true; for (int j = 0; j < 3; j++) for (int z = 0; z < 3; z++) if (std::fabs(got[i][j][z] - x[(j + r) % 3][z]) > 1e-10) eq = false; }
      CHECK(c, eq, "stl.facet", "facet %zu is not face %zu", i, i);
      V3 A = {x[0][0], x[0][1], x[0][2]}, B = {x[1][0], x[1][1], x[1][2]}, C = {x[2][0], x[2][1], x[2][2]}; V3 nn = cross(B - A, C - A); double L = norm(nn);
      if (L > 1e-6) CHECK(c, norm(nrm[i] - (1 / L) * nn) < 1e-6, "stl.normal", "facet %zu has a normal of (%g,%g,%g), should be (%g,%g,%g)", i, nrm[i][0], nrm[i][1], nrm[i][2], nn[0] / L, nn[1] / L, nn[2] / L);
      c.count("facets");
    }
  }
  unlink(fn.c_str());
  c.note("stl: %s %s", m.kind.c_str(), rep_name(rep)); c.mix(model_hash(m)); c.mix(rep); c.mix(1); c.nontrivial = !fs.empty();
  MESH_Delete(w.m);
}

CASE(C16, off, 3) {
  Rng& g = c.rng; bool solid = g.chance(0.1);
  GenOpt o; o.size = 2; Model m = solid ? gen3(g, o) : surf(c, g.chance(0.2));
  RepType rep = solid ? F1 : g.pick(std::vector<RepType>{F1, F1, F4, R1, R2, R4});
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  if (!solid) gaps(c, w, 2);
  PV fs = all_of(w.m, 2), vs = all_of(w.m, 0);
  if (g.chance(0.3)) { IV ids; for (size_t i = 0; i < vs.size(); i++) ids.push_back((int)i + 1); g.shuffle(ids); for (size_t i = 0; i < vs.size(); i++) MV_Set_ID(vs[i], ids[i]); }
  Dump a = dump_mesh(w.m); std::string fn = tmpbase() + ".off";
  int ok = g.chance(0.5) ? MESH_ExportToOFF(w.m, fn.c_str()) : MESH_ExportToFile(w.m, fn.c_str(), "off", 0, nullptr, nullptr, nullptr);
  Dump b = dump_mesh(w.m); same_dump(c, "off.changed-mesh", b, a);
  CHECK(c, ok == (solid ? 0 : 1), "off.status", "writing a %s returned %d", solid ? "solid" : "surface", ok);
  if (!solid) {
    Tok t(slurp(fn)); bool fine = t.is("OFF"); int nv = t.n(), nf = t.n(), ne = t.n();
    std::vector<V3> x; for (int i = 0; i < nv && !t.bad; i++) { V3 p; for (int j = 0; j < 3; j++) p[j] = t.d(); x.push_back(p); }
    std::vector<IV> F; for (int i = 0; i < nf && !t.bad; i++) { IV f; int k = t.n(); for (int j = 0; j < k && !t.bad; j++) f.push_back(t.n()); F.push_back(f); }
    CHECK(c, fine && !t.bad && t.end(), "off.syntax", "not an OFF file (token %zu of %zu)", t.i, t.t.size());
    CHECK(c, nf == (int)fs.size() && (ne == MESH_Num_Edges(w.m) || ne == 0), "off.count", "%d faces and %d edges, should be %zu and %d", nf, ne, fs.size(), MESH_Num_Edges(w.m));
    PV at;
    if (match_points(c, "off.", x, vs, 2e-12, at)) for (size_t i = 0; i < F.size() && i < fs.size(); i++) {
      PV q; bool in = true; for (int k : F[i]) { if (k < 0 || k >= (int)at.size()) in = false; else q.push_back(at[k]); }
      CHECK(c, in, "off.index", "face %zu refers to vertex %s of %zu", i, show(F[i]).c_str(), at.size());
      IV gv, wv; for (void* p : q) gv.push_back(MV_ID(p)); for (void* p : take(MF_Vertices(fs[i], 1, 0))) wv.push_back(MV_ID(p));
      if (in) CHECK(c, cyc(gv, wv) == 1, "off.face", "face %zu has vertices %s, should be %s", i, show(gv).c_str(), show(wv).c_str());
      c.count("facets");
    }
  }
  unlink(fn.c_str());
  c.note("off: %s %s", m.kind.c_str(), rep_name(rep)); c.mix(model_hash(m)); c.mix(rep); c.mix(2); c.nontrivial = !fs.empty();
  MESH_Delete(w.m);
}

struct DxObj { bool isf = false; int shape = 1, items = 0; std::vector<float> f; IV i; std::string elem, ref, dep; };
CASE(C16, dx, 4) {
  Rng& g = c.rng; bool three = g.chance(0.6);
  GenOpt o; o.size = 2; Model m = three ? gen3(g, o) : surf(c, g.chance(0.2)); int D = m.dim;
  RepType rep = g.chance(0.7) ? F1 : F4;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  gaps(c, w, D); shuffle_ids(c, w.m, true, D, 0.3);
  PV vs = all_of(w.m, 0), fs, rs = all_of(w.m, 3); for (void* p : all_of(w.m, 2)) if (!nadj(MF_Regions(p))) fs.push_back(p);
  for (void* p : rs) MEnt_Set_GEntID(p, g.range(1, 9)); for (void* p : fs) MEnt_Set_GEntID(p, g.range(1, 9));
  Dump a = dump_mesh(w.m); std::string base = tmpbase(), fn = base + ".dx";
  int ok = g.chance(0.5) ? MESH_ExportToDX(w.m, fn.c_str(), 1) : MESH_ExportToFile(w.m, fn.c_str(), "dx", 0, nullptr, nullptr, nullptr);
  CHECK(c, ok == 1, "dx.status", "writing returned %d", ok);
  Dump b = dump_mesh(w.m); same_dump(c, "dx.changed-mesh", b, a);
  // objects and fields
  Tok t(slurp(fn)); std::map<int, DxObj> ob; std::map<std::string, std::map<std::string, int>> fld; bool fine = true; size_t total = 0; std::string dat;
  while (fine && !t.end() && !t.is("end")) {
    if (!t.is("object")) { fine = false; break; }
    std::string nm = t.s(); if (!t.is("class")) { fine = false; break; }
    if (t.is("array")) {
      DxObj O; fine = t.is("type"); std::string ty = t.s(); O.isf = ty == "float"; int rank = 0; fine = fine && t.is("rank"); rank = t.n(); if (rank) { fine = fine && t.is("shape"); O.shape = t.n(); } fine = fine && t.is("items"); O.items = t.n();
      std::string end = t.s(); fine = fine && (end == "lsb" || end == "msb") && t.is("binary") && t.is("data") && t.is("file"); std::string df = t.s(); size_t cm = df.rfind(','); fine = fine && cm != std::string::npos; size_t off = fine ? atol(df.c_str() + cm + 1) : 0;
      std::string path = df.substr(0, cm == std::string::npos ? 0 : cm); if (dat.empty()) dat = slurp(path); CHECK(c, path == base + ".dat", "dx.datafile", "data file %s", path.c_str());
      CHECK(c, end == "lsb", "dx.byteorder", "data declared %s on a little-endian machine", end.c_str());
      size_t n = (size_t)O.items * O.shape; CHECK(c, off + 4 * n <= dat.size(), "dx.extent", "array %s reaches byte %zu of %zu", nm.c_str(), off + 4 * n, dat.size());
      if (off + 4 * n > dat.size()) { fine = false; break; }
      CHECK(c, off == total, "dx.offset", "array %s starts at %zu, the one before ends at %zu", nm.c_str(), off, total); total = off + 4 * n;
      for (size_t q = 0; q < n; q++) { float fv; int iv; memcpy(&fv, dat.data() + off + 4 * q, 4); memcpy(&iv, dat.data() + off + 4 * q, 4); O.isf ? (void)O.f.push_back(fv) : (void)O.i.push_back(iv); }
      while (t.is("attribute")) { std::string an = t.s(); if (an == "\"element") fine = fine && t.is("type\""); fine = fine && t.is("string"); std::string av = t.s(); (an == "\"ref\"" ? O.ref : an == "\"dep\"" ? O.dep : O.elem) = av; }
      ob[atoi(nm.c_str())] = O;
    } else if (t.is("field")) { while (t.is("component")) { std::string cn = t.s(); fine = fine && t.is("value"); fld[nm][cn] = t.n(); } }
    else fine = false;
    fine = fine && !t.bad;
  }
  CHECK(c, fine, "dx.syntax", "not a DX file at token %zu of %zu: %s", t.i, t.t.size(), t.end() ? "" : t.t[t.i].c_str());
  if (fine) {
    CHECK(c, total == dat.size(), "dx.size", "the arrays end at %zu, the file at %zu", total, dat.size());
    DxObj& P = ob[1]; std::vector<V3> x; size_t nv = vs.size();
    CHECK(c, P.isf && P.shape == 3 && P.items >= (int)nv, "dx.positions", "%d positions, should be %zu or more", P.items, nv);
    for (int i = 0; i < P.items; i++) x.push_back({P.f[3 * i], P.f[3 * i + 1], P.f[3 * i + 2]});
    bool good = P.items >= (int)nv;
    for (size_t i = 0; i < nv && good; i++) { double q[3]; MV_Coords(vs[i], q); for (int j = 0; j < 3; j++) CHECK(c, x[i][j] == (float)q[j], "dx.coords", "position %zu is %.9g, should be %.9g", i, x[i][j], q[j]); }
    std::map<void*, int> num; for (size_t i = 0; i < nv; i++) num[vs[i]] = (int)i;
    auto cycle = [&](const PV& l) { IV v; for (void* q : l) v.push_back(num[q]); return v; };
    auto field = [&](const char* nm, const char* comp) -> DxObj* { auto it = fld.find(std::string("\"") + nm + "\""); if (it == fld.end()) return nullptr; auto jt = it->second.find(std::string("\"") + comp + "\""); return jt == it->second.end() || !ob.count(jt->second) ? nullptr : &ob[jt->second]; };
    // surface: triangles, or fans around an added centre
    std::vector<std::pair<IV, int>> want; bool poly = false; size_t centre = nv;
    for (void* p : fs) { IV v = cycle(take(MF_Vertices(p, 1, 0))); if (v.size() > 3) poly = true; }
    std::map<void*, int> cen; for (void* p : fs) { IV v = cycle(take(MF_Vertices(p, 1, 0))); if (v.size() > 3) { cen[p] = (int)centre; V3 s = {0, 0, 0}; for (int q : v) { double y[3]; MV_Coords(vs[q], y); s = s + (1.0 / v.size()) * V3{y[0], y[1], y[2]}; } if (centre < x.size()) CHECK(c, norm(x[centre] - s) < 1e-4, "dx.centre", "centre %zu is not that of its face", centre); centre++; } }
    CHECK(c, centre == x.size(), "dx.npositions", "%zu positions, should be %zu", x.size(), centre);
    for (void* p : fs) { IV v = cycle(take(MF_Vertices(p, 1, 0))); if (v.size() == 3) want.push_back({v, MEnt_GEntID(p)}); else for (size_t j = 0; j < v.size(); j++) want.push_back({{v[j], v[(j + 1) % v.size()], cen[p]}, MEnt_GEntID(p)}); }
    auto elems = [&](const char* nm, const std::vector<std::pair<IV, int>>& W, auto same) {
      DxObj *C = field(nm, "connections"), *d = field(nm, "data"), *p = field(nm, "positions");
      CHECK(c, (C != nullptr) == !W.empty(), std::string("dx.") + nm + ".field", "field %s %s", nm, C ? "should not be there" : "is missing");
      if (!C || W.empty()) return;
      CHECK(c, p == &P && d && d->isf, std::string("dx.") + nm + ".components", "field %s lacks positions or data", nm);
      CHECK(c, C->items == (int)W.size() && (!d || d->items == C->items), std::string("dx.") + nm + ".count", "%d elements, should be %zu", C->items, W.size());
      for (int i = 0; i < C->items && i < (int)W.size(); i++) { IV v(C->i.begin() + i * C->shape, C->i.begin() + (i + 1) * C->shape); CHECK(c, same(v, W[i].first), std::string("dx.") + nm + ".element", "%s %d is %s, should be %s", nm, i, show(v).c_str(), show(W[i].first).c_str()); if (d && i < d->items) CHECK(c, d->f[i] == W[i].second, std::string("dx.") + nm + ".data", "%s %d has value %g, should be %d", nm, i, d->f[i], W[i].second); c.count("dx_elements"); }
    };
    elems("tris", want, [](const IV& a, const IV& b) { return cyc(a, b) == 1; });
    if (poly) {
      DxObj *E = field("polygons", "edges"), *L = field("polygons", "loops"), *Fa = field("polygons", "faces"), *d = field("polygons", "data");
      CHECK(c, E && L && Fa && d, "dx.polygons.field", "polygons are missing");
      if (E && L && Fa && d) { CHECK(c, L->items == (int)fs.size() && Fa->items == (int)fs.size() && d->items == (int)fs.size(), "dx.polygons.count", "%d loops and %d faces, should be %zu", L->items, Fa->items, fs.size());
        for (size_t i = 0; i < fs.size() && (int)i < L->items && (int)i < Fa->items; i++) { int lo = L->i[i], hi = (int)i + 1 < L->items ? L->i[i + 1] : E->items; IV v; for (int q = lo; q < hi && q >= 0 && q < E->items; q++) v.push_back(E->i[q]); CHECK(c, cyc(v, cycle(take(MF_Vertices(fs[i], 1, 0)))) == 1 && Fa->i[i] == (int)i, "dx.polygons.loop", "polygon %zu is %s", i, show(v).c_str()); if ((int)i < d->items) CHECK(c, d->f[i] == MEnt_GEntID(fs[i]), "dx.polygons.data", "polygon %zu has value %g", i, d->f[i]); c.count("dx_elements"); } }
    }
    // solids; pyramids and prisms are degenerate cubes
    std::vector<std::pair<IV, int>> T, Y, Q, H;
    for (void* p : rs) { IV v = cycle(take(MR_Vertices(p))); int id = MEnt_GEntID(p); switch (MR_ElementType(p)) { case TET: T.push_back({v, id}); break; case PYRAMID: Y.push_back({{v[0], v[1], v[2], v[3], v[4], v[4], v[4], v[4]}, id}); break; case PRISM: Q.push_back({{v[0], v[1], v[2], v[2], v[3], v[4], v[5], v[5]}, id}); break; case HEX: H.push_back({v, id}); break; default: break; } }
    // a cube by its six sides: DX numbers corners 0 1 / 2 3 on each level
    auto cube = [](const IV& v, bool dx) { IV h = dx ? IV{v[0], v[1], v[3], v[2], v[4], v[5], v[7], v[6]} : v; std::vector<IV> o; for (auto& s : std_faces(T_HEX)) { std::set<int> f; for (int z : s) f.insert(h[z]); if (f.size() > 2) o.push_back(IV(f.begin(), f.end())); } std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); return o; };
    auto samecube = [&](const IV& a, const IV& b) { return a.size() == 8 && cube(a, true) == cube(b, false); };
    auto sameprism = [&](const IV& a, const IV& b) { if (a.size() != 8) return false; std::set<int> s(a.begin(), a.end()), r(b.begin(), b.end()); if (s != r) return false; std::vector<IV> A = cube(a, true), B; IV v = {b[0], b[1], b[2], b[4], b[5], b[6]}; for (auto& f : std_faces(T_PRISM)) { IV q; for (int z : f) q.push_back(v[z]); B.push_back(sorted(q)); } std::sort(B.begin(), B.end()); return A == B; };
    auto samepyr = [&](const IV& a, const IV& b) { if (a.size() != 8) return false; std::vector<IV> A = cube(a, true), B; for (auto& f : std_faces(T_PYR)) { IV q; for (int z : f) q.push_back(b[z]); B.push_back(sorted(q)); } std::sort(B.begin(), B.end()); return A == B; };
    elems("tets", T, [](const IV& a, const IV& b) { return sorted(a) == sorted(b); });
    elems("pyramids", Y, samepyr); elems("prisms", Q, sameprism); elems("hexes", H, samecube);
  }
  unlink(fn.c_str()); unlink((base + ".dat").c_str());
  c.note("dx: %s %s, %zu faces, %zu regions", m.kind.c_str(), rep_name(rep), fs.size(), rs.size()); c.mix(model_hash(m)); c.mix(rep); c.mix(3); c.nontrivial = fs.size() + rs.size() > 1;
  MESH_Delete(w.m);
}
