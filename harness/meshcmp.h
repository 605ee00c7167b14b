// A mesh written down entity by entity in iteration order, with attributes and sets; comparison of two of them.
#pragma once
#include "mstk_if.h"

typedef std::pair<int,int> Cl;
struct DAtt { MAttType type; MType dim; int nc; std::map<std::pair<int,int>, std::vector<double>> val; };   // (dim, index) -> value
struct DSet { MType dim; std::vector<std::pair<int,int>> e; };
struct Dump {
  std::vector<V3> x; std::vector<Cl> vc, ec, fc, rc;
  std::vector<std::pair<int,int>> e;
  std::vector<IV> f;                                           // vertex cycles
  std::vector<std::vector<std::pair<int,int>>> rf;             // (face, direction); full representations and R4
  std::vector<IV> rv;                                          // vertices in order
  IV rt;
  std::map<std::string, DAtt> att;
  std::map<std::string, DSet> set;
  std::vector<std::string> attorder, setorder;
};

inline Dump dump_mesh(Mesh_ptr mesh, bool atts = true) {
  Dump d; MView w; w.index_by_order(mesh);
  bool full = w.rep == F1 || w.rep == F4;
  std::unordered_map<void*, std::pair<int,int>> at;
  int i = 0; void* p;
  for (size_t k = 0; k < w.v.size(); k++) { double q[3]; MV_Coords(w.v[k], q); d.x.push_back({q[0],q[1],q[2]}); d.vc.push_back({MV_GEntDim(w.v[k]), MV_GEntID(w.v[k])}); at[w.v[k]] = {0, (int)k}; }
  if (full) while ((p = MESH_Next_Edge(mesh, &i))) { at[p] = {1, (int)d.e.size()}; d.e.push_back({w.V(ME_Vertex(p, 0)), w.V(ME_Vertex(p, 1))}); d.ec.push_back({ME_GEntDim(p), ME_GEntID(p)}); }
  i = 0; while ((p = MESH_Next_Face(mesh, &i))) { at[p] = {2, (int)d.f.size()}; d.f.push_back(w.Fc(p)); d.fc.push_back({MF_GEntDim(p), MF_GEntID(p)}); }
  i = 0; while ((p = MESH_Next_Region(mesh, &i))) {
    at[p] = {3, (int)d.rv.size()}; d.rc.push_back({MR_GEntDim(p), MR_GEntID(p)}); d.rv.push_back(w.Rv(p)); d.rt.push_back((int)MR_ElementType(p));
    d.rf.emplace_back();
    if (full || w.rep == R4) { List_ptr l = MR_Faces(p); for (int k = 0; k < List_Num_Entries(l); k++) { auto it = at.find(List_Entry(l, k)); d.rf.back().push_back({it == at.end() ? -1 : it->second.second, MR_FaceDir_i(p, k)}); } List_Delete(l); }
  }
  if (!atts) return d;
  i = 0; MAttrib_ptr a;
  while ((a = MESH_Next_Attrib(mesh, &i))) {
    char nm[600]; MAttrib_Get_Name(a, nm);
    DAtt D; D.type = MAttrib_Get_Type(a); D.dim = MAttrib_Get_EntDim(a); D.nc = MAttrib_Get_NumComps(a);
    for (auto& q : at) {
      if (D.dim != MALLTYPE && (int)D.dim != q.second.first) continue;
      int iv; double dv; void* pv;
      if (!MEnt_Get_AttVal(q.first, a, &iv, &dv, &pv)) continue;
      std::vector<double> v;
      if (D.type == INT) v = {(double)iv}; else if (D.type == DOUBLE) v = {dv}; else if (D.type == POINTER) continue;
      else if (pv) v.assign((double*)pv, (double*)pv + D.nc);
      D.val[q.second] = v;
    }
    d.att[nm] = D; d.attorder.push_back(nm);
  }
  i = 0; MSet_ptr s;
  while ((s = MESH_Next_MSet(mesh, &i))) {
    char nm[600]; MSet_Name(s, nm);
    DSet D; D.dim = MSet_EntDim(s);
    int k = 0; while ((p = MSet_Next_Entry(s, &k))) { auto it = at.find(p); D.e.push_back(it == at.end() ? std::make_pair(-1, -1) : it->second); }
    d.set[nm] = D; d.setorder.push_back(nm);
  }
  return d;
}
inline std::string sp(const std::vector<std::pair<int,int>>& v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 14; i++) s += sk(v[i]); return s + "]"; }

struct CmpOpt { double xtol = 0, atol = 0; bool cls = true, vcls = true, order = true, atts = true, sets = true, edgeverts = true; };
// b is what it should be
inline void same_geom(Ctx& c, const std::string& k, const Dump& a, const Dump& b, const CmpOpt& o) {
  CHECK(c, a.x.size() == b.x.size(), k + ".nv", "%zu vertices, should be %zu", a.x.size(), b.x.size());
  CHECK(c, a.e.size() == b.e.size(), k + ".ne", "%zu edges, should be %zu", a.e.size(), b.e.size());
  CHECK(c, a.f.size() == b.f.size(), k + ".nf", "%zu faces, should be %zu", a.f.size(), b.f.size());
  CHECK(c, a.rv.size() == b.rv.size(), k + ".nr", "%zu regions, should be %zu", a.rv.size(), b.rv.size());
  for (size_t i = 0; i < a.x.size() && i < b.x.size(); i++) for (int j = 0; j < 3; j++)
    CHECK(c, std::fabs(a.x[i][j] - b.x[i][j]) <= o.xtol, k + ".coords", "vertex %zu coordinate %d is %.17g, should be %.17g", i, j, a.x[i][j], b.x[i][j]);
  auto cl = [&](const std::vector<Cl>& p, const std::vector<Cl>& q, const char* n) { for (size_t i = 0; i < p.size() && i < q.size(); i++) CHECK(c, p[i] == q[i], k + "." + n, "entity %zu classified %s, should be %s", i, sk(p[i]).c_str(), sk(q[i]).c_str()); };
  if (a.x.size() != b.x.size() || a.e.size() != b.e.size() || a.f.size() != b.f.size() || a.rv.size() != b.rv.size()) return;
  if (o.cls) { if (o.vcls) cl(a.vc, b.vc, "vclass"); cl(a.ec, b.ec, "eclass"); cl(a.fc, b.fc, "fclass"); cl(a.rc, b.rc, "rclass"); }
  for (size_t i = 0; i < a.e.size(); i++) CHECK(c, a.e[i] == b.e[i], k + ".edge", "edge %zu is %s, should be %s", i, sk(a.e[i]).c_str(), sk(b.e[i]).c_str());
  for (size_t i = 0; i < a.f.size(); i++) CHECK(c, a.f[i] == b.f[i], k + ".face", "face %zu is %s, should be %s", i, sk(a.f[i]).c_str(), sk(b.f[i]).c_str());
  for (size_t i = 0; i < a.rv.size(); i++) {
    CHECK(c, a.rf[i] == b.rf[i], k + ".region-faces", "region %zu has faces %s, should be %s", i, sp(a.rf[i]).c_str(), sp(b.rf[i]).c_str());
    CHECK(c, a.rv[i] == b.rv[i], k + ".region", "region %zu has vertices %s, should be %s", i, sk(a.rv[i]).c_str(), sk(b.rv[i]).c_str());
    CHECK(c, a.rt[i] == b.rt[i], k + ".rtype", "region %zu has type %d, should be %d", i, a.rt[i], b.rt[i]);
  }
}
inline void same_atts(Ctx& c, const std::string& k, const std::map<std::string, DAtt>& a, const std::map<std::string, DAtt>& b, const CmpOpt& o) {
  for (auto& q : a) CHECK(c, b.count(q.first), k + ".att-extra", "unexpected attribute %s", q.first.c_str());
  for (auto& q : b) {
    auto it = a.find(q.first);
    CHECK(c, it != a.end(), k + ".att-missing", "attribute %s is missing", q.first.c_str());
    if (it == a.end()) continue;
    const DAtt &A = it->second, &B = q.second; const char* n = q.first.c_str();
    CHECK(c, A.type == B.type && A.dim == B.dim && A.nc == B.nc, k + ".att-def", "attribute %s has type %d dim %d comps %d, should be %d %d %d", n, (int)A.type, (int)A.dim, A.nc, (int)B.type, (int)B.dim, B.nc);
    for (auto& v : A.val) CHECK(c, B.val.count(v.first), k + ".att-value-extra", "attribute %s has a value on %s", n, sk(v.first).c_str());
    for (auto& v : B.val) {
      auto jt = A.val.find(v.first);
      CHECK(c, jt != A.val.end(), k + ".att-value-missing", "attribute %s has no value on %s", n, sk(v.first).c_str());
      if (jt == A.val.end()) continue;
      bool ok = jt->second.size() == v.second.size();
      for (size_t j = 0; ok && j < v.second.size(); j++) ok = std::fabs(jt->second[j] - v.second[j]) <= o.atol * std::max(1.0, std::fabs(v.second[j]));
      CHECK(c, ok, k + ".att-value", "attribute %s on %s is %.17g..., should be %.17g...", n, sk(v.first).c_str(), jt->second.empty() ? 0.0 : jt->second[0], v.second.empty() ? 0.0 : v.second[0]);
      c.count("attribute_values");
    }
  }
}
inline void same_sets(Ctx& c, const std::string& k, const std::map<std::string, DSet>& a, const std::map<std::string, DSet>& b, bool order = true) {
  for (auto& q : a) CHECK(c, b.count(q.first), k + ".set-extra", "unexpected set %s", q.first.c_str());
  for (auto& q : b) {
    auto it = a.find(q.first);
    CHECK(c, it != a.end(), k + ".set-missing", "set %s is missing", q.first.c_str());
    if (it == a.end()) continue;
    auto p = it->second.e, r = q.second.e;
    if (!order) { std::sort(p.begin(), p.end()); std::sort(r.begin(), r.end()); }
    CHECK(c, it->second.dim == q.second.dim, k + ".set-dim", "set %s has dimension %d, should be %d", q.first.c_str(), (int)it->second.dim, (int)q.second.dim);
    CHECK(c, p == r, k + ".set", "set %s is %s, should be %s", q.first.c_str(), sp(p).c_str(), sp(r).c_str());
    c.count("sets");
  }
}
inline void same_dump(Ctx& c, const std::string& k, const Dump& a, const Dump& b, const CmpOpt& o = CmpOpt()) {
  same_geom(c, k, a, b, o);
  if (o.atts) same_atts(c, k, a.att, b.att, o);
  if (o.sets) same_sets(c, k, a.set, b.set);
  c.count("meshes_compared");
}

inline PV all_of(Mesh_ptr m, int d) {
  PV o; int i = 0; void* p;
  while ((p = d == 0 ? MESH_Next_Vertex(m, &i) : d == 1 ? MESH_Next_Edge(m, &i) : d == 2 ? MESH_Next_Face(m, &i) : MESH_Next_Region(m, &i))) o.push_back(p);
  return o;
}
// what the library does goes by the order of the entities in the mesh or by what it knows them by, whatever their IDs are
inline bool shuffle_ids(Ctx& c, Mesh_ptr m, bool full, int D, double chance = 0.4) {
  Rng& g = c.rng; if (!g.chance(chance)) return false;
  for (int d = 0; d <= D; d++) if ((full || d == 0 || d == D) && g.chance(0.7)) {
    PV a = all_of(m, d); std::vector<int> id; for (void* p : a) id.push_back(MEnt_ID(p));
    if (g.below(2)) g.shuffle(id); else { int k = g.range(1, 9); for (int& i : id) i += k; }
    for (size_t i = 0; i < a.size(); i++) MEnt_Set_ID(a[i], id[i]);
  }
  c.count("meshes with other IDs than their order"); return true;
}
// random classification of everything that can have one
inline void classify_random(Ctx& c, Mesh_ptr m) {
  for (int d = 0; d < 4; d++) for (void* p : all_of(m, d)) { MEnt_Set_GEntDim(p, c.rng.range(d, 3)); MEnt_Set_GEntID(p, c.rng.range(d == 3 ? 1 : 0, 30)); }
}
// names of a user's attributes may be any, also those the library gives to its own temporary ones
inline std::string att_name(Rng& g, Mesh_ptr m, const std::string& otherwise) {
  static const std::vector<std::string> own = {"copyatt", "vidatt", "eidatt", "fidatt", "ridatt", "ownedatt", "block_type", "local_face_ids", "vidatt_tmp", "fidatt_tmp", "ridatt_tmp", "cellmk", "mkatt", "vidrcm", "processed", "processedatt", "sublist",
                                              "vertex", "edge", "face", "region", "exoatt", "tmpatt_renumber", "temp_gf_id", "temp_lv_id", "temp_gv_id", "temp_gr_id", "temp_lr_id", "tempvid", "tempeid", "tempfid", "dirflag", "on_parbndry", "vmasteratt"};
  if (!g.chance(0.25)) return otherwise;
  std::string s = g.pick(own); return MESH_AttribByName(m, s.c_str()) ? otherwise : s;
}
// random attributes with values on some entities
inline int add_attributes(Ctx& c, Mesh_ptr m, int n, bool pointers, const std::vector<MType>& dims, const std::string& pre = "at", double lim = 1e4) {
  Rng& g = c.rng; int made = 0;
  bool full = MESH_RepType(m) == F1 || MESH_RepType(m) == F4;
  for (int k = 0; k < n; k++) {
    static const MAttType T[] = {INT, DOUBLE, VECTOR, TENSOR, POINTER};
    MAttType t = T[g.below(pointers ? 5 : 4)]; MType D = g.pick(dims);
    int nc = t == VECTOR ? g.range(1, 7) : t == TENSOR ? g.pick(std::vector<int>{3, 6, 9}) : 1;
    std::string nm = att_name(g, m, pre + std::to_string(k) + std::string(g.below(8), 'q'));
    MAttrib_ptr a = t == VECTOR || t == TENSOR ? MAttrib_New(m, nm.c_str(), t, D, nc) : MAttrib_New(m, nm.c_str(), t, D);
    double frac = g.chance(0.1) ? 0.0 : g.chance(0.3) ? 1.0 : g.unit();
    for (int d = 0; d < 4; d++) if (D == MALLTYPE || (int)D == d) {
      if (d == 1 && !full) continue;
      for (void* p : all_of(m, d)) {
        if (!g.chance(frac)) continue;
        switch (t) {
          case INT: MEnt_Set_AttVal(p, a, g.chance(0.05) ? (g.chance(0.5) ? INT32_MIN : INT32_MAX) : g.range(-1000, 1000), 0, nullptr); break;
          case DOUBLE: MEnt_Set_AttVal(p, a, 0, g.real(-lim, lim), nullptr); break;
          case POINTER: MEnt_Set_AttVal(p, a, 0, 0, p); break;
          default: { std::vector<double> v; for (int j = 0; j < nc; j++) v.push_back(g.real(-lim, lim)); MEnt_Set_AttVal(p, a, 0, 0, v.data()); }
        }
        made++;
      }
    }
  }
  return made;
}
