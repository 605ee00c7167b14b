// An Exodus II file as it reads through the Exodus library itself, without MSTK.
#pragma once
#include "model.h"
#include <exodusII.h>

struct ExoBlock { int id = 0; std::string type; std::vector<IV> conn; };        // NFACED: faces (0-based); otherwise vertices (0-based)
struct ExoVar { std::string name; std::vector<double> v; };
struct ExoFile {
  int dim = 3; std::vector<V3> x; std::vector<IV> faces; std::vector<ExoBlock> blk;
  std::map<int, IV> nset, eset; std::map<int, std::vector<std::pair<int,int>>> sset;   // 0-based element, side
  std::map<int, std::string> ssname;
  std::vector<ExoVar> nvar, evar;                          // evar: by element in file order
  IV nmap, emap;
  std::string err;
  int nelem() const { int n = 0; for (auto& b : blk) n += (int)b.conn.size(); return n; }
};

inline bool ieq(const std::string& a, const char* p) { return !strncasecmp(a.c_str(), p, strlen(p)); }
// sides of the standard elements of Exodus II, in its numbering, 0-based local vertices, oriented outward
inline const std::vector<IV>& exo_sides(const std::string& t) {
  static const std::vector<IV> tet = {{0,1,3},{1,2,3},{0,3,2},{0,2,1}}, wedge = {{0,1,4,3},{1,2,5,4},{0,3,5,2},{0,2,1},{3,4,5}},
    pyr = {{0,1,4},{1,2,4},{2,3,4},{0,4,3},{0,3,2,1}}, hex = {{0,1,5,4},{1,2,6,5},{2,3,7,6},{0,4,7,3},{0,3,2,1},{4,5,6,7}}, none;
  return ieq(t, "TET") ? tet : ieq(t, "WEDGE") ? wedge : ieq(t, "PYR") ? pyr : ieq(t, "HEX") ? hex : none;
}
inline IV exo_side(const ExoFile& f, int el, int side) {
  for (auto& b : f.blk) {
    if (el >= (int)b.conn.size()) { el -= (int)b.conn.size(); continue; }
    const IV& v = b.conn[el];
    if (ieq(b.type, "NFACED")) return side < (int)v.size() ? f.faces[v[side]] : IV();
    auto& s = exo_sides(b.type);
    if (s.empty()) return side < (int)v.size() ? IV{v[side], v[(side + 1) % v.size()]} : IV();
    if (side < 0 || side >= (int)s.size()) return IV();
    IV o; for (int k : s[side]) o.push_back(v[k]);
    return o;
  }
  return IV();
}
// what a side number says; -1 when the face is none of the element
inline int exo_side_of(const ExoFile& f, int el, const IV& fv) {
  for (int s = 0; s < 600; s++) { IV q = exo_side(f, el, s); if (q.empty()) return -1; if (sorted(q) == sorted(fv)) return s; }
  return -1;
}

inline ExoFile exo_read(const char* fn) {
  ExoFile F; int cw = 8, iw = 0; float ver; int id = ex_open(fn, EX_READ, &cw, &iw, &ver);
  if (id < 0) { F.err = "cannot open"; return F; }
  ex_init_params p; if (ex_get_init_ext(id, &p) < 0) { F.err = "no parameters"; ex_close(id); return F; }
  F.dim = p.num_dim; int nn = p.num_nodes;
  std::vector<double> X(nn + 1), Y(nn + 1), Z(nn + 1); ex_get_coord(id, X.data(), Y.data(), Z.data());
  for (int i = 0; i < nn; i++) F.x.push_back({X[i], Y[i], F.dim > 2 ? Z[i] : 0});
  auto ids = [&](ex_entity_type t, int n) { IV v(n + 1); if (n) ex_get_ids(id, t, v.data()); v.resize(n); return v; };
  for (int b : ids(EX_FACE_BLOCK, p.num_face_blk)) {
    char ty[256]; int n, tot; ex_get_block(id, EX_FACE_BLOCK, b, ty, &n, &tot, 0, 0, 0);
    IV c(tot + 1), k(n + 1); ex_get_conn(id, EX_FACE_BLOCK, b, c.data(), 0, 0); ex_get_entity_count_per_polyhedra(id, EX_FACE_BLOCK, b, k.data());
    for (int i = 0, o = 0; i < n; i++) { IV v; for (int j = 0; j < k[i] && o < tot; j++) v.push_back(c[o++] - 1); F.faces.push_back(v); }
  }
  IV bids = ids(EX_ELEM_BLOCK, p.num_elem_blk);
  for (int b : bids) {
    ExoBlock B; char ty[256]; int n = 0, nn2 = 0, ne = 0, nf = 0, na = 0; ex_get_block(id, EX_ELEM_BLOCK, b, ty, &n, &nn2, &ne, &nf, &na);
    B.id = b; B.type = ty;
    if (ieq(B.type, "NFACED") || ieq(B.type, "NSIDED")) {
      bool fa = ieq(B.type, "NFACED"); int tot = fa ? nf : nn2; IV c(tot + 1), k(n + 1);
      ex_get_conn(id, EX_ELEM_BLOCK, b, fa ? nullptr : c.data(), nullptr, fa ? c.data() : nullptr); ex_get_entity_count_per_polyhedra(id, EX_ELEM_BLOCK, b, k.data());
      for (int i = 0, o = 0; i < n; i++) { IV v; for (int j = 0; j < k[i] && o < tot; j++) v.push_back(c[o++] - 1); B.conn.push_back(v); }
    } else {
      IV c((size_t)n * nn2 + 1); ex_get_conn(id, EX_ELEM_BLOCK, b, c.data(), nullptr, nullptr);
      for (int i = 0; i < n; i++) { IV v; for (int j = 0; j < nn2; j++) v.push_back(c[i * nn2 + j] - 1); B.conn.push_back(v); }
    }
    F.blk.push_back(B);
  }
  auto sets = [&](ex_entity_type t, int n, std::function<void(int, IV, IV)> f) {
    for (int s : ids(t, n)) { int k, d; ex_get_set_param(id, t, s, &k, &d); IV a(k + 1), b(k + 1); if (k) ex_get_set(id, t, s, a.data(), t == EX_SIDE_SET ? b.data() : nullptr); a.resize(k); b.resize(k); for (int& i : a) i--; for (int& i : b) i--; f(s, a, b); }
  };
  sets(EX_NODE_SET, p.num_node_sets, [&](int s, IV a, IV) { F.nset[s] = a; });
  sets(EX_ELEM_SET, p.num_elem_sets, [&](int s, IV a, IV) { F.eset[s] = a; });
  sets(EX_SIDE_SET, p.num_side_sets, [&](int s, IV a, IV b) { auto& q = F.sset[s]; for (size_t i = 0; i < a.size(); i++) q.push_back({a[i], b[i]}); });
  for (int e = 0; e < 2; e++) {
    ex_entity_type t = e ? EX_ELEM_BLOCK : EX_NODAL; int n = 0; if (ex_get_variable_param(id, t, &n) < 0) n = 0;
    for (int i = 1; i <= n; i++) {
      char nm[300] = ""; ex_get_variable_name(id, t, i, nm); ExoVar V; V.name = nm;
      if (!e) { V.v.resize(nn + 1); ex_get_var(id, 1, t, i, 1, nn, V.v.data()); V.v.resize(nn); F.nvar.push_back(V); }
      else { for (auto& B : F.blk) { std::vector<double> q(B.conn.size() + 1); ex_get_var(id, 1, t, i, B.id, (int)B.conn.size(), q.data()); V.v.insert(V.v.end(), q.begin(), q.end() - 1); } F.evar.push_back(V); }
    }
  }
  F.nmap.resize(nn + 1); ex_get_id_map(id, EX_NODE_MAP, F.nmap.data()); F.nmap.resize(nn);
  int ne = F.nelem(); F.emap.resize(ne + 1); ex_get_id_map(id, EX_ELEM_MAP, F.emap.data()); F.emap.resize(ne);
  ex_close(id);
  return F;
}

inline bool exo_write(const ExoFile& F, const char* fn) {
  int cw = 8, iw = 8, id = ex_create(fn, EX_CLOBBER, &cw, &iw);
  if (id < 0) return false;
  ex_init_params p; memset(&p, 0, sizeof p); strcpy(p.title, "made by the monitor");
  p.num_dim = F.dim; p.num_nodes = F.x.size(); p.num_elem = F.nelem(); p.num_elem_blk = F.blk.size(); p.num_face = F.faces.size(); p.num_face_blk = F.faces.empty() ? 0 : 1;
  p.num_node_sets = F.nset.size(); p.num_side_sets = F.sset.size(); p.num_elem_sets = F.eset.size();
  if (ex_put_init_ext(id, &p) < 0) return false;
  std::vector<double> X, Y, Z; for (auto& x : F.x) { X.push_back(x[0]); Y.push_back(x[1]); Z.push_back(x[2]); }
  ex_put_coord(id, X.data(), Y.data(), F.dim > 2 ? Z.data() : nullptr);
  auto flat = [](const std::vector<IV>& c, IV& f, IV& n) { for (auto& v : c) { n.push_back((int)v.size()); for (int i : v) f.push_back(i + 1); } };
  if (!F.faces.empty()) {
    IV f, n; flat(F.faces, f, n);
    ex_put_block(id, EX_FACE_BLOCK, 77, "nsided", (int)n.size(), (int)f.size(), 0, 0, 0); ex_put_entity_count_per_polyhedra(id, EX_FACE_BLOCK, 77, n.data()); ex_put_conn(id, EX_FACE_BLOCK, 77, f.data(), nullptr, nullptr);
  }
  for (auto& B : F.blk) {
    IV f, n; flat(B.conn, f, n);
    if (ieq(B.type, "NFACED")) { ex_put_block(id, EX_ELEM_BLOCK, B.id, B.type.c_str(), (int)n.size(), 0, 0, (int)f.size(), 0); ex_put_entity_count_per_polyhedra(id, EX_ELEM_BLOCK, B.id, n.data()); ex_put_conn(id, EX_ELEM_BLOCK, B.id, nullptr, nullptr, f.data()); }
    else if (ieq(B.type, "NSIDED")) { ex_put_block(id, EX_ELEM_BLOCK, B.id, B.type.c_str(), (int)n.size(), (int)f.size(), 0, 0, 0); ex_put_entity_count_per_polyhedra(id, EX_ELEM_BLOCK, B.id, n.data()); ex_put_conn(id, EX_ELEM_BLOCK, B.id, f.data(), nullptr, nullptr); }
    else { ex_put_block(id, EX_ELEM_BLOCK, B.id, B.type.c_str(), (int)n.size(), n.empty() ? 0 : n[0], 0, 0, 0); ex_put_conn(id, EX_ELEM_BLOCK, B.id, f.data(), nullptr, nullptr); }
  }
  for (auto& s : F.nset) { IV a; for (int i : s.second) a.push_back(i + 1); ex_put_set_param(id, EX_NODE_SET, s.first, (int)a.size(), 0); if (a.size()) ex_put_set(id, EX_NODE_SET, s.first, a.data(), nullptr); }
  for (auto& s : F.eset) { IV a; for (int i : s.second) a.push_back(i + 1); ex_put_set_param(id, EX_ELEM_SET, s.first, (int)a.size(), 0); if (a.size()) ex_put_set(id, EX_ELEM_SET, s.first, a.data(), nullptr); }
  for (auto& s : F.sset) { IV a, b; for (auto& i : s.second) { a.push_back(i.first + 1); b.push_back(i.second + 1); } ex_put_set_param(id, EX_SIDE_SET, s.first, (int)a.size(), 0); if (a.size()) ex_put_set(id, EX_SIDE_SET, s.first, a.data(), b.data()); }
  for (auto& s : F.ssname) ex_put_name(id, EX_SIDE_SET, s.first, s.second.c_str());
  if (F.nmap.size()) ex_put_id_map(id, EX_NODE_MAP, F.nmap.data());
  if (F.emap.size()) ex_put_id_map(id, EX_ELEM_MAP, F.emap.data());
  double t = 0; ex_put_time(id, 1, &t);
  for (int e = 0; e < 2; e++) {
    auto& V = e ? F.evar : F.nvar; ex_entity_type ty = e ? EX_ELEM_BLOCK : EX_NODAL;
    if (V.empty()) continue;
    ex_put_variable_param(id, ty, (int)V.size());
    for (size_t i = 0; i < V.size(); i++) ex_put_variable_name(id, ty, (int)i + 1, V[i].name.c_str());
    for (size_t i = 0; i < V.size(); i++) {
      if (!e) ex_put_var(id, 1, ty, (int)i + 1, 1, (int)F.x.size(), V[i].v.data());
      else { size_t o = 0; for (auto& B : F.blk) { ex_put_var(id, 1, ty, (int)i + 1, B.id, (int)B.conn.size(), V[i].v.data() + o); o += B.conn.size(); } }
    }
  }
  return ex_close(id) >= 0;
}

// the mesh the file describes. Polyhedra get the orientation that is geometrically outward (cells are star shaped about their vertex average)
// faces of a polyhedron, oriented outwards: consistent across shared edges, overall volume positive
inline void orient_poly(const Model& m, const ExoFile& F, const IV& v, std::vector<IV>& out) {
  size_t n = v.size(); out.clear(); for (int k : v) out.push_back(F.faces[k]);
  std::map<std::pair<int, int>, std::vector<int>> em;
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < out[i].size(); j++) { int a = out[i][j], b = out[i][(j + 1) % out[i].size()]; em[{std::min(a, b), std::max(a, b)}].push_back((int)i); }
  auto uses = [&](int i, int a, int b) { for (size_t j = 0; j < out[i].size(); j++) if (out[i][j] == a && out[i][(j + 1) % out[i].size()] == b) return true; return false; };
  std::vector<char> done(n, 0);
  for (size_t s = 0; s < n; s++) {
    if (done[s]) continue;
    IV comp{(int)s}; done[s] = 1;
    for (size_t q = 0; q < comp.size(); q++) {
      int i = comp[q]; IV w = out[i];
      for (size_t j = 0; j < w.size(); j++) {
        int a = w[j], b = w[(j + 1) % w.size()]; auto& l = em[{std::min(a, b), std::max(a, b)}];
        if (l.size() != 2) continue;
        int o = l[0] == i ? l[1] : l[0]; if (done[o]) continue;
        if (uses(o, a, b)) std::reverse(out[o].begin(), out[o].end());
        done[o] = 1; comp.push_back(o);
      }
    }
    double vol = 0; for (int i : comp) vol += dot(poly_area_vec(m, out[i]), centroid(m, out[i]) - centroid(m, out[s]));
    if (vol < 0) for (int i : comp) std::reverse(out[i].begin(), out[i].end());
  }
}
// type of a polyhedron given by its faces only (the faces used here of 4 triangles, 5 and 6 faces fit the standard elements)
inline int poly_type(const std::vector<IV>& f) {
  size_t t = 0, q = 0; for (auto& x : f) { if (x.size() == 3) t++; if (x.size() == 4) q++; }
  if (f.size() == 4 && t == 4) return T_TET;
  if (f.size() == 5 && q == 3 && t == 2) return T_PRISM;
  if (f.size() == 5 && q == 1 && t == 4) return T_PYR;
  if (f.size() == 6 && q == 6) return T_HEX;
  return T_POLY;
}
inline Model exo_model(const ExoFile& F) {
  Model m; m.x = F.x; m.dim = 2;
  for (auto& B : F.blk) if (ieq(B.type, "NFACED") || !exo_sides(B.type).empty()) m.dim = 3;
  for (auto& B : F.blk) for (auto& v : B.conn) {
    if (m.dim == 2) { MFaceM f; f.v = v; f.gdim = 2; f.gid = B.id; m.f.push_back(f); continue; }
    MRegM R; R.gid = B.id;
    if (ieq(B.type, "NFACED")) {
      orient_poly(m, F, v, R.fv);
      R.type = poly_type(R.fv);
    } else { R.type = ieq(B.type, "TET") ? T_TET : ieq(B.type, "PYR") ? T_PYR : ieq(B.type, "WEDGE") ? T_PRISM : T_HEX; R.v = v; }
    m.r.push_back(R);
  }
  return m;
}
