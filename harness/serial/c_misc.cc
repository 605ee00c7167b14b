// C17 copies, C18 structured meshes, C19 classification, C20 renumbering, C22 element graph, C25 subdivision, C26 geometry, C29 generic description.
#include "meshcmp.h"
#include <unistd.h>
#define MSTK_VF_NO 1

static Model tri_only(Rng& g, GenOpt o) { for (;;) { Model m = gen2(g, o); bool ok = true; for (auto& f : m.f) ok &= f.v.size() == 3; if (ok) return m; } }
static Model tet_only(Rng& g, GenOpt o) { o.standard_only = true; for (;;) { Model m = gen3(g, o); bool ok = !m.r.empty(); for (auto& r : m.r) ok &= r.type == T_TET; for (int i = 0; i < m.nxf; i++) ok = false; if (ok) return m; } }
// delete some elements and what nothing uses any more
static int make_holes(Ctx& c, Mesh_ptr m, int dim, double p) {
  Rng& g = c.rng; int n = 0; PV top = all_of(m, dim);
  for (void* t : top) if ((int)top.size() - n > 1 && g.chance(p)) { MEnt_Delete(t, 0); n++; }
  if (n && g.chance(0.7)) for (int d = dim - 1; d >= 0; d--) for (void* q : all_of(m, d)) {
    List_ptr up = d == 2 ? MF_Regions(q) : d == 1 ? ME_Faces(q) : MV_Edges(q);
    int used = up ? List_Num_Entries(up) : 0; if (up) List_Delete(up);
    if (!used && g.chance(d ? 0.9 : 0.8)) MEnt_Delete(q, 0);
  }
  return n;
}
static void random_ids(Ctx& c, Mesh_ptr m) {
  for (int d = 0; d < 4; d++) { PV e = all_of(m, d); IV id; for (size_t i = 0; i < e.size() * 3; i++) id.push_back((int)i + 1); c.rng.shuffle(id); for (size_t i = 0; i < e.size(); i++) MEnt_Set_ID(e[i], id[i]); }
}
static std::vector<IV> all_ids(Mesh_ptr m) { std::vector<IV> o(4); for (int d = 0; d < 4; d++) for (void* p : all_of(m, d)) o[d].push_back(MEnt_ID(p)); return o; }
static std::vector<IV> all_gids(Mesh_ptr m) { std::vector<IV> o(4); for (int d = 0; d < 4; d++) for (void* p : all_of(m, d)) o[d].push_back(MEnt_GlobalID(p)); return o; }

// ------------------------------------------------------------------ C17
CASE(C17, mesh_copy, 1) {
  Rng& g = c.rng;
  static const RepType reps[] = {F1, F4, F1, F4, R1, R2, R4};
  RepType rep = reps[g.below(7)], rep2 = rep;
  if ((rep == F1 || rep == F4) && g.chance(0.4)) rep2 = rep == F1 ? F4 : F1;
  bool full = rep == F1 || rep == F4;
  GenOpt o; o.size = 3; if (rep == R1 || rep == R2) { o.standard_only = true; o.size = 2; }
  Model m = gen(g, o);
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  int ndel = full && g.chance(0.4) ? make_holes(c, w.m, m.dim, 0.2) : 0;
  classify_random(c, w.m);
  bool ids = g.chance(0.5); if (ids) random_ids(c, w.m);
  if (g.chance(0.5)) for (int d = 0; d < 4; d++) for (void* p : all_of(w.m, d)) MEnt_Set_GlobalID(p, g.range(1, 100000));
  std::vector<MType> dims = {MVERTEX, MFACE, MALLTYPE}; if (full) dims.push_back(MEDGE); if (m.dim == 3) dims.push_back(MREGION);
  int nval = add_attributes(c, w.m, g.below(6), true, dims);
  int nset = g.below(4);
  for (int k = 0; k < nset; k++) {
    MType D = g.pick(dims); MSet_ptr s = MSet_New(w.m, ("set" + std::to_string(k)).c_str(), D);
    for (int d = 0; d < 4; d++) if ((D == MALLTYPE || (int)D == d) && !(d == 1 && !full)) { PV e = all_of(w.m, d); g.shuffle(e); for (void* p : e) if (g.chance(0.4)) MSet_Add(s, p); }
  }
  int wa = g.chance(0.7), ws = g.chance(0.7);
  Dump a = dump_mesh(w.m); auto ia = all_ids(w.m), ga = all_gids(w.m);
  std::set<void*> mine; for (void* p : all_of(w.m, 0)) mine.insert(p);
  Mesh_ptr n = MESH_New(rep2);
  int ok = MESH_Copy(w.m, n, wa, ws);
  std::string k = std::string("copy.") + rep_name(rep) + (rep2 == rep ? "" : std::string("-") + rep_name(rep2));
  CHECK(c, ok == 1, k + ".result", "MESH_Copy returned %d", ok);
  Dump a2 = dump_mesh(w.m);
  same_dump(c, k + ".source", a2, a);
  CHECK(c, a2.attorder == a.attorder, k + ".source-attribs", "the source has %zu attributes after the copy, had %zu", a2.attorder.size(), a.attorder.size());
  CHECK(c, all_ids(w.m) == ia && all_gids(w.m) == ga, k + ".source-ids", "IDs of the source changed");
  Dump want = a;
  for (auto& q : want.att) for (auto it = q.second.val.begin(); it != q.second.val.end();)
    if ((q.second.type == INT || q.second.type == DOUBLE) && it->second[0] == 0.0) it = q.second.val.erase(it);
    else if (q.second.type == POINTER) it = q.second.val.erase(it); else ++it;
  if (!wa) { want.att.clear(); want.attorder.clear(); }
  if (!ws) { want.set.clear(); want.setorder.clear(); }
  auto check = [&](const std::string& kk) {
    Dump b = dump_mesh(n);
    // a zero is as good as no value
    for (auto& q : b.att) for (auto it = q.second.val.begin(); it != q.second.val.end();)
      if ((q.second.type == INT || q.second.type == DOUBLE) && it->second[0] == 0.0) it = q.second.val.erase(it); else ++it;
    same_dump(c, kk, b, want);
    CHECK(c, b.attorder == want.attorder, kk + ".att-order", "attributes are in another order");
    CHECK(c, b.setorder == want.setorder, kk + ".set-order", "sets are in another order");
    auto ib = all_ids(n), gb = all_gids(n);
    for (int d = 0; d < 4; d++) { CHECK(c, ib[d] == ia[d], kk + ".ids", "IDs of dimension %d are %s, should be %s", d, show(ib[d]).c_str(), show(ia[d]).c_str());
      CHECK(c, gb[d] == ga[d], kk + ".global-ids", "global IDs of dimension %d are %s, should be %s", d, show(gb[d]).c_str(), show(ga[d]).c_str()); }
    for (int d = 0; d < 4; d++) { PV e = all_of(n, d); for (size_t i = 0; i < e.size(); i++) CHECK(c, MEnt_Mesh(e[i]) == n, kk + ".owner", "entity of dimension %d does not belong to the copy", d); }
    MView wn; wn.index_by_order(n);
    for (void* s : wn.v) CHECK(c, !mine.count(s), kk + ".shared", "a vertex of the copy is one of the source");
    if (!ndel && !c.failed()) verify(c, wn, m, (ids ? 0 : VF_IDS) | VF_COMMON | VF_ORIENT | VF_TEMPLATE, kk + ".");
  };
  check(k);
  // neither depends on the other
  if (g.chance(0.5)) { MESH_Delete(w.m); check(k + ".source-deleted"); MESH_Delete(n); }
  else {
    for (void* p : all_of(n, 0)) { double x[3] = {g.unit(), 1, 2}; MV_Set_Coords(p, x); MV_Set_GEntID(p, 77); }
    if (m.dim == 3 || full) for (int d = m.dim; d >= (full ? 0 : m.dim); d--) for (void* p : all_of(n, d)) MEnt_Delete(p, 0);
    if (wa) { int i = 0; PV as; void* at; while ((at = MESH_Next_Attrib(n, &i))) as.push_back(at); for (void* q : as) MAttrib_Delete(q); }
    Dump a3 = dump_mesh(w.m); same_dump(c, k + ".source-after-change", a3, a);
    MESH_Delete(n);
    Dump a4 = dump_mesh(w.m); same_dump(c, k + ".source-after-delete", a4, a);
    MESH_Delete(w.m);
  }
  c.note("%s %s copied to %s%s%s, %d deleted, %d attribute values, %d sets", m.kind.c_str(), rep_name(rep), rep_name(rep2), wa ? " with attributes" : "", ws ? " with sets" : "", ndel, nval, nset);
  c.mix(model_hash(m)); c.mix(rep * 8 + rep2); c.mix(nval * 16 + nset); c.nontrivial = a.f.size() + a.rv.size() > 1;
}

// ------------------------------------------------------------------ C18
CASE(C18, structured, 1) {
  Rng& g = c.rng;
  bool d3 = g.chance(0.6);
  int lim = d3 ? (c.tier ? 9 : 6) : (c.tier ? 30 : 14);
  int n[3] = {g.range(1, lim), g.range(1, lim), d3 ? g.range(1, lim) : 0};
  if (g.chance(0.2)) n[g.below(d3 ? 3 : 2)] = g.chance(0.5) ? 1 : 2;
  V3 l, u; double sc = g.chance(0.2) ? 1e-3 : g.chance(0.2) ? 1e4 : 1;
  for (int i = 0; i < 3; i++) { l[i] = sc * g.real(-3, 3); u[i] = l[i] + sc * g.real(0.1, 4); }
  Mesh_ptr M = MESH_Gen_Structured(l[0], l[1], l[2], u[0], u[1], u[2], n[0], n[1], n[2]);
  CHECK(c, M != nullptr, "struct.null", "no mesh");
  if (!M) return;
  const char* t = d3 ? "struct3" : "struct2"; std::string k = t;
  int D = d3 ? 3 : 2;
  MView w; w.index_by_order(M);
  long nv = (long)(n[0]+1)*(n[1]+1)*(n[2]+1);
  CHECK(c, (long)w.v.size() == nv, k + ".nv", "%zu vertices, should be %ld", w.v.size(), nv);
  // lattice position of every vertex
  std::vector<std::array<int,3>> at(w.v.size()); std::set<std::array<int,3>> seen; bool good = true;
  for (size_t i = 0; i < w.v.size(); i++) {
    double x[3]; MV_Coords(w.v[i], x);
    for (int d = 0; d < 3; d++) {
      if (d == 2 && !d3) { CHECK(c, x[2] == 0.0, k + ".z", "z is %.17g", x[2]); at[i][2] = 0; continue; }
      double s = (x[d] - l[d]) / (u[d] - l[d]) * n[d]; int q = (int)std::lround(s);
      if (q < 0 || q > n[d]) { good = false; q = std::min(std::max(q, 0), n[d]); }
      double want = q == n[d] ? u[d] : q == 0 ? l[d] : l[d] + q * (u[d] - l[d]) / n[d];
      CHECK(c, std::fabs(x[d] - want) <= 1e-12 * (std::fabs(l[d]) + std::fabs(u[d])), k + ".coords", "coordinate %.17g is not on the lattice (%.17g)", x[d], want);
      if (q == 0 || q == n[d]) CHECK(c, x[d] == want, k + ".bounds", "boundary coordinate %.17g, should be %.17g", x[d], want);
      at[i][d] = q;
    }
    if (!seen.insert(at[i]).second) good = false;
  }
  CHECK(c, good && (long)seen.size() == nv, k + ".lattice", "vertices are not one at every lattice point");
  // model entity a lattice box lies on: -1 low side, 1 high side, 0 inside, for each direction
  auto cls = [&](std::vector<int> vs) {
    int s[3];
    for (int d = 0; d < 3; d++) { bool lo = true, hi = true; for (int v : vs) { lo &= at[v][d] == 0; hi &= at[v][d] == n[d]; } s[d] = lo ? -1 : hi ? 1 : 0; }
    if (!d3) s[2] = 0;
    int dim = D; for (int d = 0; d < D; d++) dim -= s[d] != 0;
    int id = 0;
    if (!d3) {
      if (dim == 0) id = s[1] < 0 ? (s[0] < 0 ? 1 : 2) : (s[0] < 0 ? 4 : 3);
      else if (dim == 1) id = s[1] < 0 ? 1 : s[0] > 0 ? 2 : s[1] > 0 ? 3 : 4;
      else id = 1;
    } else {
      if (dim == 0) id = 1 + (s[0] > 0) + 2 * (s[1] > 0) + 4 * (s[2] > 0);
      if (dim == 0) { static const int vmap[8] = {1, 2, 3, 4, 5, 6, 7, 8}; id = vmap[id - 1]; }
      else if (dim == 1) {
        if (!s[0]) id = s[1] < 0 ? (s[2] < 0 ? 1 : 3) : (s[2] < 0 ? 5 : 7);
        else if (!s[2]) id = s[1] < 0 ? (s[0] < 0 ? 4 : 2) : (s[0] < 0 ? 8 : 6);
        else id = s[2] < 0 ? (s[0] < 0 ? 9 : 10) : (s[0] < 0 ? 12 : 11);
      } else if (dim == 2) id = s[1] < 0 ? 1 : s[1] > 0 ? 2 : s[2] < 0 ? 3 : s[2] > 0 ? 4 : s[0] > 0 ? 5 : 6;
      else id = 1;
    }
    return Cl(dim, id);
  };
  auto chk = [&](void* p, std::vector<int> vs, const char* what) {
    Cl want = cls(vs), have(MEnt_GEntDim(p), MEnt_GEntID(p));
    CHECK(c, have == want, k + "." + what + "-class", "%s %s is classified %s, should be %s", what, show(vs).c_str(), sk(have).c_str(), sk(want).c_str());
    c.count("classifications");
  };
  for (size_t i = 0; i < w.v.size(); i++) chk(w.v[i], {(int)i}, "vertex");
  for (void* e : all_of(M, 1)) { EK q = w.E(e); chk(e, {q.first, q.second}, "edge"); int dd = 0; for (int d = 0; d < 3; d++) dd += std::abs(at[q.first][d] - at[q.second][d]); CHECK(c, dd == 1, k + ".edge", "edge %s does not join neighbours", sk(q).c_str()); }
  for (void* f : all_of(M, 2)) chk(f, w.F(f), "face");
  for (void* r : all_of(M, 3)) chk(r, w.R(r), "region");
  // cells: every lattice box once, positively oriented
  Model m; m.dim = D;
  for (void* v : w.v) { double x[3]; MV_Coords(v, x); m.x.push_back({x[0], x[1], x[2]}); }
  std::set<std::array<int,3>> boxes; double vol = 0;
  auto box = [&](const IV& vs) {
    std::array<int,3> lo = at[vs[0]]; for (int v : vs) for (int d = 0; d < 3; d++) lo[d] = std::min(lo[d], at[v][d]);
    std::set<std::array<int,3>> got, want; for (int v : vs) got.insert(at[v]);
    for (int q = 0; q < (d3 ? 8 : 4); q++) want.insert({lo[0] + (q & 1), lo[1] + ((q >> 1) & 1), lo[2] + ((q >> 2) & 1)});
    CHECK(c, got == want && vs.size() == want.size(), k + ".cell", "cell %s is not a box of the lattice", show(vs).c_str());
    CHECK(c, boxes.insert(lo).second, k + ".cell-twice", "box (%d,%d,%d) is there twice", lo[0], lo[1], lo[2]);
  };
  if (d3) for (void* r : all_of(M, 3)) { MRegM R; R.type = T_HEX; R.v = w.Rv(r); box(R.v); double q = R.v.size() == 8 ? poly_volume(m, reg_faces(R)) : 0; vol += q; CHECK(c, q > 0, k + ".inverted", "region %s is inverted", show(R.v).c_str()); m.r.push_back(R); }
  else for (void* f : all_of(M, 2)) { MFaceM F; F.v = w.Fc(f); box(F.v); double q = poly_area_vec(m, F.v)[2]; vol += q; CHECK(c, q > 0, k + ".inverted", "face %s is inverted", show(F.v).c_str()); m.f.push_back(F); }
  CHECK(c, (long)boxes.size() == (long)n[0] * n[1] * std::max(1, n[2]), k + ".cells", "%zu cells", boxes.size());
  double V = (u[0]-l[0])*(u[1]-l[1])*(d3 ? u[2]-l[2] : 1);
  CHECK(c, std::fabs(vol - V) <= 1e-9 * V, k + ".volume", "cells fill %.17g of %.17g", vol, V);
  if (!c.failed()) verify(c, w, m, VF_IDS | VF_COMMON | VF_ORIENT | VF_TEMPLATE | VF_ADJ, k + ".");
  MESH_Delete(M);
  c.note("%dx%dx%d, %zu vertices", n[0], n[1], n[2], w.v.size());
  c.mix(n[0] * 10000 + n[1] * 100 + n[2]); c.mix((uint64_t)(1e6 * u[0])); c.nontrivial = boxes.size() > 1;
}

// ------------------------------------------------------------------ C19
struct UF { IV p; UF(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int f(int i) { return p[i] == i ? i : p[i] = f(p[i]); } void u(int a, int b) { p[f(a)] = f(b); } };
CASE(C19, build_classfn, 1) {
  Rng& g = c.rng;
  GenOpt o; o.size = g.chance(0.15) ? 5 : 3;
  Model m = gen(g, o);
  RepType rep = g.chance(0.5) ? F1 : F4;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  // an isolated edge and vertices now and then
  int niso = 0;
  if (g.chance(0.25)) { int q = g.range(1, 3); std::vector<void*> iv; for (int i = 0; i <= q; i++) { void* v = MV_New(w.m); double x[3] = {20 + 1.0 * i, 20 + (i == 2 ? 3.0 : 0), 20}; MV_Set_Coords(v, x); iv.push_back(v); niso++; }
    if (g.chance(0.7)) for (int i = 0; i < q; i++) if (g.chance(0.8)) { void* e = ME_New(w.m); ME_Set_Vertex(e, 0, iv[i]); ME_Set_Vertex(e, 1, iv[i + 1]); } }
  int ndel = g.chance(0.3) ? make_holes(c, w.m, m.dim, 0.25) : 0;
  shuffle_ids(c, w.m, true, m.dim, 0.3);
  PV V = all_of(w.m, 0), E = all_of(w.m, 1), F = all_of(w.m, 2), R = all_of(w.m, 3);
  std::unordered_map<void*, int> ix; for (auto* l : {&V, &E, &F, &R}) for (size_t i = 0; i < l->size(); i++) ix[(*l)[i]] = (int)i;
  // labels given beforehand
  int how = g.below(4), ngid = g.range(1, 3);           // 0 nothing at all
  for (void* r : R) { MR_Set_GEntID(r, how == 0 ? 0 : how == 1 ? g.range(1, ngid) : g.chance(0.3) ? 0 : g.range(1, ngid) * 3); }
  if (how == 3 && ngid > 1) { double x0[3]; for (void* r : R) { double q[MAXPV3][3]; int nn; MR_Coords(r, &nn, q); x0[0] = q[0][0]; MR_Set_GEntID(r, x0[0] > 1 ? 2 : 1); } }     // half and half
  int nlab = 0; double plab = g.chance(0.5) ? 0 : g.chance(0.5) ? 0.2 : 0.8;
  for (void* f : F) { if (g.chance(plab)) { MF_Set_GEntDim(f, 2); MF_Set_GEntID(f, g.chance(0.1) ? 0 : g.range(1, 4)); nlab++; } else if (m.dim == 2) { MF_Set_GEntDim(f, 4); MF_Set_GEntID(f, 0); } }
  IV rg0, fd0, fg0; for (void* r : R) rg0.push_back(MR_GEntID(r)); for (void* f : F) { fd0.push_back(MF_GEntDim(f)); fg0.push_back(MF_GEntID(f)); }
  int geo = g.chance(0.4);
  auto X = [&](void* v) { double x[3]; MV_Coords(v, x); return V3{x[0], x[1], x[2]}; };
  std::vector<PV> fv(F.size()), fe(F.size()), fr(F.size()), ef(E.size()), ve(V.size());
  for (size_t i = 0; i < F.size(); i++) { fv[i] = take(MF_Vertices(F[i], 1, 0)); fe[i] = take(MF_Edges(F[i], 1, 0)); fr[i] = take(MF_Regions(F[i])); }
  for (size_t i = 0; i < E.size(); i++) ef[i] = take(ME_Faces(E[i]));
  for (size_t i = 0; i < V.size(); i++) ve[i] = take(MV_Edges(V[i]));
  Dump before = dump_mesh(w.m);
  int ok = MESH_BuildClassfn(w.m, geo);
  std::string k = std::string("classfn") + (geo ? ".geometry" : "");
  CHECK(c, ok == 1, k + ".result", "returned %d", ok);
  Dump after = dump_mesh(w.m); CmpOpt q; q.cls = false; same_dump(c, k + ".mesh", after, before, q);
  CHECK(c, after.attorder == before.attorder, k + ".attributes", "left attributes behind");
  auto cl = [&](void* p) { return Cl(MEnt_GEntDim(p), MEnt_GEntID(p)); };
  // regions
  IV rg; int mx = 0; for (int i : rg0) mx = std::max(mx, i);
  for (size_t i = 0; i < R.size(); i++) { rg.push_back(rg0[i] > 0 ? rg0[i] : mx + 1); CHECK(c, MR_GEntDim(R[i]) == 3 && MR_GEntID(R[i]) == rg[i], k + ".region", "region %zu is on %s, should be on (3,%d)", i, sk(cl(R[i])).c_str(), rg[i]); }
  // faces
  auto pairof = [&](size_t i) { IV p; for (void* r : fr[i]) p.push_back(rg[ix[r]]); while (p.size() < 2) p.push_back(0); std::sort(p.begin(), p.end()); return p; };
  bool close = false;
  auto perp = [&](void* f, void* e) { V3 a = X(ME_Vertex(e, 0)), b = X(ME_Vertex(e, 1)), s = {0,0,0}; auto& vs = fv[ix[f]]; for (void* v : vs) s = s + X(v); s = (1.0 / vs.size()) * s; V3 d = b - a; d = (1 / norm(d)) * d; V3 p = s - a; p = p - dot(p, d) * d; return (1 / norm(p)) * p; };
  const double thr = std::cos(5 * M_PI / 6);
  auto smooth2 = [&](double cs) { if (std::fabs(cs - thr) < 1e-6) close = true; return cs <= thr; };
  std::vector<int> want2(F.size());      // 1 if on a model face
  for (size_t i = 0; i < F.size(); i++) {
    IV p = pairof(i); bool in = fr[i].size() == 2 && p[0] == p[1]; want2[i] = !in;
    if (in) CHECK(c, cl(F[i]) == Cl(3, p[0]), k + ".face-interior", "face between regions on %d is on %s", p[0], sk(cl(F[i])).c_str());
    else CHECK(c, MF_GEntDim(F[i]) == 2 && MF_GEntID(F[i]) > 0, k + ".face-boundary", "face between regions on %d and %d is on %s", p[0], p[1], sk(cl(F[i])).c_str());
    c.count("classifications");
  }
  // what the face IDs are before geometry is looked at
  std::vector<std::string> base(F.size());       // a name for the model face without geometry
  {
    std::map<int, IV> lab;                        // label -> pair of its first face
    std::map<IV, int> first;
    for (size_t i = 0; i < F.size(); i++) if (fd0[i] == 2 && fg0[i] != 0 && !lab.count(fg0[i])) { lab[fg0[i]] = pairof(i); if (!first.count(pairof(i))) first[pairof(i)] = fg0[i]; }
    for (size_t i = 0; i < F.size(); i++) {
      if (!want2[i]) continue;
      if (fd0[i] == 2 && fg0[i] > 0) base[i] = "L" + std::to_string(fg0[i]);
      else { auto it = first.find(pairof(i)); base[i] = it != first.end() ? "L" + std::to_string(it->second) : "P" + show(pairof(i)); }
      if (!geo && base[i][0] == 'L') CHECK(c, MF_GEntID(F[i]) == atoi(base[i].c_str() + 1), k + ".face-label", "face %zu is on %s, label %s was given", i, sk(cl(F[i])).c_str(), base[i].c_str());
    }
  }
  auto same_partition = [&](const std::vector<int>& idx, const std::vector<std::string>& name, const PV& ent, const char* what) {
    std::map<std::string, int> a; std::map<int, std::string> b;
    for (int i : idx) {
      int id = MEnt_GEntID(ent[i]);
      auto p = a.insert({name[i], id}); auto r = b.insert({id, name[i]});
      CHECK(c, p.first->second == id, k + "." + what + "-split", "%s %d is on %d, others of the same kind (%s) are on %d", what, i, id, name[i].c_str(), p.first->second);
      CHECK(c, r.first->second == name[i], k + "." + what + "-joined", "%s %d is on %d like others of another kind (%s, %s)", what, i, id, name[i].c_str(), r.first->second.c_str());
    }
  };
  std::vector<char> sharp(E.size(), 0);          // edges inside a model face kept as model edges
  UF uf((int)F.size());
  if (geo) {
    for (size_t e = 0; e < E.size(); e++) {
      PV b; for (void* f : ef[e]) if (want2[ix[f]]) b.push_back(f);
      if (b.size() != 2 || base[ix[b[0]]] != base[ix[b[1]]]) continue;
      if (smooth2(dot(perp(b[0], E[e]), perp(b[1], E[e])))) uf.u(ix[b[0]], ix[b[1]]); else sharp[e] = 1;
    }
  }
  std::vector<std::string> name(F.size()); std::vector<int> idx;
  for (size_t i = 0; i < F.size(); i++) if (want2[i]) { idx.push_back((int)i); name[i] = base[i] + (geo ? "#" + std::to_string(uf.f((int)i)) : ""); }
  if (close) { c.note("skipped, an angle is at the threshold"); MESH_Delete(w.m); return; }
  same_partition(idx, name, F, "face");
  if (c.failed()) { MESH_Delete(w.m); return; }
  // edges, from the labels faces have now
  std::vector<std::string> en(E.size()); std::vector<int> e1; std::vector<std::set<int>> eset(E.size());
  for (size_t i = 0; i < E.size(); i++) {
    IV ids; for (void* f : ef[i]) if (MF_GEntDim(f) == 2) ids.push_back(MF_GEntID(f));
    std::sort(ids.begin(), ids.end()); Cl have = cl(E[i]); eset[i] = std::set<int>(ids.begin(), ids.end());
    if (!ef[i].empty() && ids.empty()) { Cl want(3, MF_GEntID(ef[i][0])); CHECK(c, have == want, k + ".edge-interior", "edge %zu inside a model region is on %s, should be on %s", i, sk(have).c_str(), sk(want).c_str()); }
    else if (ids.size() == 2 && ids[0] == ids[1] && !sharp[i]) CHECK(c, have == Cl(2, ids[0]), k + ".edge-on-face", "edge %zu inside model face %d is on %s", i, ids[0], sk(have).c_str());
    else { CHECK(c, have.first == 1 && have.second > 0, k + ".edge-on-edge", "edge %zu with model faces %s is on %s", i, show(ids).c_str(), sk(have).c_str()); en[i] = show(ids); e1.push_back((int)i); }
    c.count("classifications");
  }
  // same faces around: same model edge; another set of faces around: another model edge
  UF ue((int)E.size());
  std::vector<std::vector<int>> v1(V.size());
  for (size_t v = 0; v < V.size(); v++) for (void* e : ve[v]) if (ME_GEntDim(e) == 1) v1[v].push_back(ix[e]);
  std::vector<char> corner(V.size(), 0);
  auto away = [&](int e, void* v) { V3 a = X(ME_Vertex(E[e], 0)), b = X(ME_Vertex(E[e], 1)); V3 d = ME_Vertex(E[e], 0) == v ? b - a : a - b; return (1 / norm(d)) * d; };
  if (geo) for (size_t v = 0; v < V.size(); v++) if (v1[v].size() == 2 && en[v1[v][0]] == en[v1[v][1]]) { if (smooth2(dot(away(v1[v][0], V[v]), away(v1[v][1], V[v])))) ue.u(v1[v][0], v1[v][1]); else corner[v] = 1; }
  if (close) { c.note("skipped, an angle is at the threshold"); MESH_Delete(w.m); return; }
  {
    std::map<std::string, int> a; std::map<int, std::set<int>> b; std::map<int, int> comp;
    for (int i : e1) {
      int id = ME_GEntID(E[i]); std::string nm = en[i] + (geo ? "#" + std::to_string(ue.f(i)) : "");
      auto p = a.insert({nm, id});
      CHECK(c, p.first->second == id, k + ".edge-split", "edge %d with model faces %s is on %d, others like it on %d", i, en[i].c_str(), id, p.first->second);
      auto r = b.insert({id, eset[i]});
      CHECK(c, r.first->second == eset[i], k + ".edge-joined", "edge %d with model faces %s is on model edge %d, which has other faces", i, en[i].c_str(), id);
      if (geo) { auto s = comp.insert({id, i}); CHECK(c, ue.f(s.first->second) == ue.f(i) || en[s.first->second] != en[i], k + ".edge-joined-corner", "edge %d is on model edge %d although not smoothly connected to edge %d", i, id, s.first->second); }
    }
  }
  if (c.failed()) { MESH_Delete(w.m); return; }
  // vertices, from the labels edges have now
  std::map<IV, int> vn; std::map<int, std::set<int>> vb; std::set<int> uniq, shared;
  for (size_t v = 0; v < V.size(); v++) {
    IV ids; for (int e : v1[v]) ids.push_back(ME_GEntID(E[e])); std::sort(ids.begin(), ids.end()); Cl have = cl(V[v]);
    std::set<int> fid; for (void* e : ve[v]) if (ME_GEntDim(e) == 2) fid.insert(ME_GEntID(e));
    c.count("classifications");
    if (!ve[v].empty() && ids.empty()) {
      if (fid.size() == 1) CHECK(c, have == Cl(2, *fid.begin()), k + ".vertex-on-face", "vertex %zu inside model face %d is on %s", v, *fid.begin(), sk(have).c_str());
      else if (fid.empty()) { Cl want(3, ME_GEntID(ve[v][0])); CHECK(c, have == want, k + ".vertex-interior", "vertex %zu is on %s, should be on %s", v, sk(have).c_str(), sk(want).c_str()); }
      else { CHECK(c, have.first == 0 && have.second > 0, k + ".vertex-pinch", "vertex %zu where several model faces touch is on %s", v, sk(have).c_str()); CHECK(c, uniq.insert(have.second).second, k + ".vertex-pinch-shared", "vertex %zu shares model vertex %d", v, have.second); }
    } else if (ve[v].empty()) { CHECK(c, have.first == 0 && have.second > 0 && uniq.insert(have.second).second, k + ".vertex-isolated", "isolated vertex %zu is on %s", v, sk(have).c_str()); }
    else if (ids.size() == 2 && ids[0] == ids[1] && !corner[v]) CHECK(c, have == Cl(1, ids[0]), k + ".vertex-on-edge", "vertex %zu inside model edge %d is on %s", v, ids[0], sk(have).c_str());
    else {
      CHECK(c, have.first == 0 && have.second > 0, k + ".vertex-on-vertex", "vertex %zu with model edges %s is on %s", v, show(ids).c_str(), sk(have).c_str());
      if (ids.size() == 2 && ids[0] == ids[1]) { CHECK(c, uniq.insert(have.second).second, k + ".vertex-corner-shared", "corner %zu shares model vertex %d", v, have.second); continue; }
      shared.insert(have.second);
      auto p = vn.insert({ids, have.second}); CHECK(c, p.first->second == have.second, k + ".vertex-split", "vertex %zu with model edges %s is on %d, others like it on %d", v, show(ids).c_str(), have.second, p.first->second);
      auto r = vb.insert({have.second, std::set<int>(ids.begin(), ids.end())}); CHECK(c, r.first->second == std::set<int>(ids.begin(), ids.end()), k + ".vertex-joined", "vertex %zu with model edges %s is on model vertex %d, which has other edges", v, show(ids).c_str(), have.second);
    }
  }
  for (int i : uniq) CHECK(c, !shared.count(i), k + ".vertex-shared", "model vertex %d is used twice", i);
  // doing it again changes no dimension and no label of regions, faces and edges
  if (!c.failed() && g.chance(0.5)) {
    Dump a = dump_mesh(w.m, false); MESH_BuildClassfn(w.m, geo); Dump b = dump_mesh(w.m, false);
    for (size_t i = 0; i < a.vc.size(); i++) CHECK(c, a.vc[i].first == b.vc[i].first && (geo || a.vc[i].first == 0 || a.vc[i] == b.vc[i]), k + ".again-vertex", "vertex %zu was on %s, is on %s", i, sk(a.vc[i]).c_str(), sk(b.vc[i]).c_str());
    for (size_t i = 0; i < a.ec.size(); i++) CHECK(c, a.ec[i].first == b.ec[i].first && (geo || a.ec[i] == b.ec[i]), k + ".again-edge", "edge %zu was on %s, is on %s", i, sk(a.ec[i]).c_str(), sk(b.ec[i]).c_str());
    for (size_t i = 0; i < a.fc.size(); i++) CHECK(c, a.fc[i] == b.fc[i], k + ".again-face", "face %zu was on %s, is on %s", i, sk(a.fc[i]).c_str(), sk(b.fc[i]).c_str());
    for (size_t i = 0; i < a.rc.size(); i++) CHECK(c, a.rc[i] == b.rc[i], k + ".again-region", "region %zu was on %s, is on %s", i, sk(a.rc[i]).c_str(), sk(b.rc[i]).c_str());
  }
  MESH_Delete(w.m);
  c.note("%s %s%s, %d labels given, %d isolated vertices, %d deleted, %zu/%zu edges and %zu faces on the boundary", m.kind.c_str(), rep_name(rep), geo ? " with geometry" : "", nlab, niso, ndel, e1.size(), E.size(), idx.size());
  c.mix(model_hash(m)); c.mix(how * 16 + geo * 4 + nlab); c.nontrivial = F.size() + R.size() > 1;
}

// ------------------------------------------------------------------ C20
CASE(C20, renumber, 1) {
  Rng& g = c.rng;
  static const RepType reps[] = {F1, F1, F1, F4, F4, R1, R2, R4};
  RepType rep = reps[g.below(8)]; bool full = rep == F1 || rep == F4;
  GenOpt o; o.size = full ? (c.tier && g.chance(0.3) ? 6 : 4) : 2; if (rep == R1 || rep == R2) o.standard_only = true;
  Model m = gen(g, o);
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  int ndel = full && g.chance(0.4) ? make_holes(c, w.m, m.dim, 0.3) : 0;
  bool rid = g.chance(0.5); if (rid) random_ids(c, w.m);
  classify_random(c, w.m);
  int nval = add_attributes(c, w.m, g.below(3), true, {MVERTEX, MFACE, MALLTYPE});
  if (g.chance(0.3)) { MESH_Enable_LocalIDSearch(w.m); }
  int rounds = g.range(1, 3);
  for (int rd = 0; rd < rounds && !c.failed(); rd++) {
    int mode = full ? g.below(2) : 0;
    static const MType T[] = {MVERTEX, MEDGE, MFACE, MREGION, MALLTYPE, MALLTYPE};
    MType t = T[g.below(6)];
    Dump a = dump_mesh(w.m); auto ia = all_ids(w.m);
    MESH_Renumber(w.m, mode, t);
    std::string k = std::string("renumber.") + (mode ? "rcm" : "seq") + "." + rep_name(rep);
    Dump b = dump_mesh(w.m); auto ib = all_ids(w.m);
    a.att.erase("vidrcm"); b.att.erase("vidrcm");      // documented nowhere, harmless: the vertex numbers as an attribute
    same_dump(c, k + ".mesh", b, a);
    for (int d = 0; d < 4; d++) {
      if (t != MALLTYPE && (int)t != d) { CHECK(c, ib[d] == ia[d], k + ".others", "IDs of dimension %d changed", d); continue; }
      IV s = sorted(ib[d]); bool seq = true, perm = true;
      for (size_t i = 0; i < s.size(); i++) { perm &= s[i] == (int)i + 1; seq &= ib[d][i] == (int)i + 1; }
      CHECK(c, perm, k + ".permutation", "IDs of dimension %d are %s", d, show(ib[d], 60).c_str());
      if (!mode) CHECK(c, seq, k + ".sequential", "IDs of dimension %d are %s", d, show(ib[d], 60).c_str());
      c.count("renumbered");
      if (!mode || !perm || seq) continue;
      // the new numbering must bring neighbours closer than consecutive numbers do
      PV ent = all_of(w.m, d); std::unordered_map<void*, int> pos; for (size_t i = 0; i < ent.size(); i++) pos[ent[i]] = (int)i;
      std::set<EK> nb;
      auto clique = [&](const PV& l) { for (void* p : l) for (void* q : l) if (p != q) nb.insert({pos[p], pos[q]}); };
      if (d == m.dim || (d == 2 && m.dim == 2)) { for (void* v : all_of(w.m, 0)) clique(take(d == 3 ? MV_Regions(v) : MV_Faces(v))); }
      else for (void* e : all_of(w.m, MESH_Num_Regions(w.m) ? 3 : 2)) { bool is3 = MESH_Num_Regions(w.m); clique(take(d == 0 ? (is3 ? MR_Vertices(e) : MF_Vertices(e, 1, 0)) : d == 1 ? (is3 ? MR_Edges(e) : MF_Edges(e, 1, 0)) : MR_Faces(e))); }
      long mx1 = 0, mx2 = 0, s1 = 0, s2 = 0;
      for (auto& q : nb) { long d1 = std::abs(q.first - q.second), d2 = std::abs(ib[d][q.first] - ib[d][q.second]); mx1 = std::max(mx1, d1); mx2 = std::max(mx2, d2); s1 += d1; s2 += d2; }
      CHECK(c, mx2 < mx1 && s2 < s1, k + ".worse", "numbering of dimension %d: largest difference %ld, was %ld; sum %ld, was %ld", d, mx2, mx1, s2, s1);
      c.count("improved");
    }
    // the numbers are what lookups go by, and new entities come after them
    for (int d = 0; d < 4; d++) { PV e = all_of(w.m, d); if (t != MALLTYPE && (int)t != d) continue; for (size_t i = 0; i < e.size(); i++) { void* p = d == 0 ? MESH_VertexFromID(w.m, ib[d][i]) : d == 1 ? MESH_EdgeFromID(w.m, ib[d][i]) : d == 2 ? MESH_FaceFromID(w.m, ib[d][i]) : MESH_RegionFromID(w.m, ib[d][i]); CHECK(c, p == e[i], k + ".lookup", "entity %zu of dimension %d is not found by its ID %d", i, d, ib[d][i]); } }
    if (t == MVERTEX || t == MALLTYPE) { void* v = MV_New(w.m); int mxid = 0; for (int i : ib[0]) mxid = std::max(mxid, i); CHECK(c, MV_ID(v) > mxid, k + ".next", "new vertex has ID %d, largest was %d", MV_ID(v), mxid); MV_Delete(v, 0); }
    c.note("%s type %d", mode ? "RCM" : "sequential", (int)t);
    c.mix(mode * 8 + (int)t);
  }
  MESH_Delete(w.m);
  c.note("%s %s, %d deleted%s, %d attribute values", m.kind.c_str(), rep_name(rep), ndel, rid ? ", random IDs" : "", nval);
  c.mix(model_hash(m)); c.mix(rep); c.nontrivial = m.f.size() + m.r.size() > 1;
}

// ------------------------------------------------------------------ C22
CASE(C22, element_graph, 1) {
  Rng& g = c.rng;
  GenOpt o; o.size = g.chance(0.3) ? 5 : 3; RepType rep = g.chance(0.5) ? F1 : F4;
  Model m = gen(g, o);
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  int ndel = g.chance(0.4) ? make_holes(c, w.m, m.dim, 0.25) : 0;
  if (ndel) MESH_Renumber(w.m, 0, MALLTYPE);
  int n = -1, *beg = nullptr, *adj = nullptr;
  int ok = MESH_GetElementGraph(w.m, &n, &beg, &adj);
  PV el = all_of(w.m, m.dim);
  if (m.dim == 3 && el.empty()) el = all_of(w.m, 2);
  std::unordered_map<void*, int> ix; for (size_t i = 0; i < el.size(); i++) ix[el[i]] = (int)i;
  std::string k = m.dim == 3 ? "graph3" : "graph2";
  CHECK(c, ok == 1, k + ".result", "returned %d", ok);
  CHECK(c, n == (int)el.size(), k + ".n", "%d elements, should be %zu", n, el.size());
  long links = 0;
  if (n == (int)el.size()) {
    CHECK(c, beg[0] == 0, k + ".first", "offsets start at %d", beg[0]);
    for (int i = 0; i < n; i++) {
      IV want, have;
      for (void* b : take(m.dim == 3 ? MR_Faces(el[i]) : MF_Edges(el[i], 1, 0))) for (void* e : take(m.dim == 3 ? MF_Regions(b) : ME_Faces(b))) if (e != el[i]) want.push_back(ix[e]);
      CHECK(c, beg[i + 1] >= beg[i], k + ".offsets", "offsets decrease");
      for (int j = beg[i]; j < beg[i + 1]; j++) have.push_back(adj[j]);
      links += (long)want.size();
      std::sort(want.begin(), want.end()); std::sort(have.begin(), have.end());
      CHECK(c, have == want, k + ".neighbours", "element %d has neighbours %s, should be %s", i, show(have).c_str(), show(want).c_str());
      c.count("elements");
    }
  }
  free(beg); free(adj); MESH_Delete(w.m);
  c.note("%s %s, %d deleted, %ld links", m.kind.c_str(), rep_name(rep), ndel, links);
  c.mix(model_hash(m)); c.mix(rep * 1000 + ndel); c.nontrivial = links > 0;
}

// the graph of the elements of an Exodus II file against the mesh read from it
CASE(C22, exodus_graph, 1) {
  Rng& g = c.rng; GenOpt o; o.size = g.chance(0.3) ? 5 : 3; o.manifold = true; o.planar = g.chance(0.5); Model m = gen(g, o); m.xe.clear();
  MView w = build(g, m, F1, rand_build(g, F1, m.dim)); int D = m.dim, nb = g.range(1, 3);
  for (void* e : all_of(w.m, D)) { MEnt_Set_GEntDim(e, D); MEnt_Set_GEntID(e, g.range(1, nb) + (g.chance(0.5) ? 10 * (D == 3 ? (int)MR_ElementType(e) : MF_Num_Vertices(e)) : 0)); }
  std::string fn = "g" + std::to_string(c.index) + ".exo"; int ok = MESH_ExportToExodusII(w.m, fn.c_str(), 0, nullptr, nullptr, nullptr); CHECK(c, ok == 1, "exodus.write", "writing returned %d", ok); MESH_Delete(w.m);
  Mesh_ptr t = MESH_New(F1); ok = MESH_ImportFromExodusII(t, fn.c_str(), nullptr, nullptr); CHECK(c, ok == 1, "exodus.read", "reading returned %d", ok);
  PV el = all_of(t, D); std::unordered_map<void*, int> ix; for (size_t i = 0; i < el.size(); i++) ix[el[i]] = (int)i;
  int nd = 0, n = 0, *beg = nullptr, *adj = nullptr; double (*cen)[3] = nullptr; bool co = g.chance(0.6); std::string k = D == 3 ? "exodus3" : "exodus2";
  ok = ExodusII_GetElementGraph(fn.c_str(), &nd, &n, &beg, &adj, co, co ? &cen : nullptr);
  CHECK(c, ok == 1, k + ".result", "returned %d", ok); CHECK(c, n == (int)el.size(), k + ".n", "%d elements, should be %zu", n, el.size());
  if (n == (int)el.size()) for (int i = 0; i < n; i++) {
    IV want, have; for (void* b : take(D == 3 ? MR_Faces(el[i]) : MF_Edges(el[i], 1, 0))) for (void* e : take(D == 3 ? MF_Regions(b) : ME_Faces(b))) if (e != el[i]) want.push_back(ix[e]);
    for (int j = beg[i]; j < beg[i + 1]; j++) have.push_back(adj[j]); std::sort(want.begin(), want.end()); std::sort(have.begin(), have.end());
    CHECK(c, have == want, k + ".neighbours", "element %d has neighbours %s, should be %s", i, show(have).c_str(), show(want).c_str()); c.count("elements");
    if (co) { PV vs = take(D == 3 ? MR_Vertices(el[i]) : MF_Vertices(el[i], 1, 0)); V3 s = {0, 0, 0}; for (void* v : vs) { double x[3]; MV_Coords(v, x); for (int d = 0; d < 3; d++) s[d] += x[d] / vs.size(); } double big = 1; for (void* v : vs) { double x[3]; MV_Coords(v, x); for (int d = 0; d < 3; d++) big = std::max(big, std::fabs(x[d])); }
      for (int d = 0; d < 3; d++) CHECK(c, std::fabs(cen[i][d] - s[d]) <= 1e-9 * big, k + ".center", "center %d of element %d is %.17g, should be %.17g", d, i, cen[i][d], s[d]); }
  }
  free(beg); free(adj); free(cen); MESH_Delete(t); unlink(fn.c_str());
  c.note("%s in %d blocks, %zu elements%s", m.kind.c_str(), nb, el.size(), co ? ", with centers" : ""); c.mix(model_hash(m)); c.mix(co); c.nontrivial = el.size() > 1;
}

// ------------------------------------------------------------------ C25
static int parent_class(Dump& d, int dim, int i) { (void)d; (void)dim; return i; }
CASE(C25, subdivide, 2) {
  Rng& g = c.rng; (void)parent_class;
  bool d3 = g.chance(0.6); GenOpt o; o.size = d3 ? 2 : 4;
  RepType rep = g.chance(0.5) ? F1 : F4;
  bool bad = g.chance(0.2);
  Model m = bad ? (d3 ? gen3(g, o) : gen2(g, o)) : d3 ? tet_only(g, o) : tri_only(g, o);
  bool simplex = true; for (auto& r : m.r) simplex &= r.type == T_TET; for (auto& f : m.f) simplex &= f.v.size() == 3;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  int ndel = 0;
  if (g.chance(0.3)) { PV top = all_of(w.m, m.dim); for (void* t : top) if ((int)top.size() - ndel > 1 && g.chance(0.2)) { MEnt_Delete(t, 0); ndel++; }
    for (int d = m.dim - 1; d >= 0; d--) for (void* q : all_of(w.m, d)) { List_ptr up = d == 2 ? MF_Regions(q) : d == 1 ? ME_Faces(q) : MV_Edges(q); int used = up ? List_Num_Entries(up) : 0; if (up) List_Delete(up); if (!used) MEnt_Delete(q, 0); } 
    simplex = true; for (void* f : all_of(w.m, 2)) simplex &= MF_Num_Vertices(f) == 3; for (void* r : all_of(w.m, 3)) { List_ptr l = MR_Vertices(r); simplex &= List_Num_Entries(l) == 4; List_Delete(l); } }
  shuffle_ids(c, w.m, true, m.dim, 0.3);
  classify_random(c, w.m);
  int nval = add_attributes(c, w.m, g.below(3), true, {MVERTEX, MFACE, MALLTYPE});
  Dump a = dump_mesh(w.m); auto ia = all_ids(w.m);
  Mesh_ptr n = nullptr; int ok = d3 ? MESH_Tet2Hex(w.m, &n) : MESH_Tri2Quad(w.m, &n);
  std::string k = d3 ? "tet2hex" : "tri2quad";
  Dump a2 = dump_mesh(w.m);
  same_dump(c, k + ".input", a2, a);
  CHECK(c, a2.attorder == a.attorder && all_ids(w.m) == ia, k + ".input-attribs", "attributes or IDs of the input changed");
  if (!simplex) {
    CHECK(c, !ok, k + ".refusal", "accepted a mesh of other elements");
    if (!c.failed()) { if (n) CHECK(c, false, k + ".refusal-mesh", "refused, but gave a mesh"); }
    MESH_Delete(w.m); c.note("%s %s refused", m.kind.c_str(), rep_name(rep)); c.mix(model_hash(m)); return;
  }
  CHECK(c, ok && n, k + ".result", "returned %d", ok);
  if (!ok || !n) { MESH_Delete(w.m); return; }
  // expected mesh: a point in every old entity, quads/hexes around every old vertex of every element
  Dump b = dump_mesh(n); MView wn; wn.index_by_order(n);
  std::vector<std::pair<V3, Cl>> pts; std::map<IV, int> key;     // vertex set of the old entity -> point
  for (size_t i = 0; i < a.x.size(); i++) { key[{(int)i}] = (int)pts.size(); pts.push_back({a.x[i], a.vc[i]}); }
  auto add = [&](IV vs, Cl cl) { V3 s = {0,0,0}; for (int v : vs) s = s + a.x[v]; key[sorted(vs)] = (int)pts.size(); pts.push_back({(1.0 / vs.size()) * s, cl}); };
  for (size_t i = 0; i < a.e.size(); i++) add({a.e[i].first, a.e[i].second}, a.ec[i]);
  for (size_t i = 0; i < a.f.size(); i++) add(a.f[i], a.fc[i]);
  for (size_t i = 0; i < a.rv.size(); i++) add(a.rv[i], a.rc[i]);
  CHECK(c, b.x.size() == pts.size(), k + ".nv", "%zu vertices, should be %zu", b.x.size(), pts.size());
  if (b.x.size() == pts.size()) {
    // match points by place (the order of new vertices is not promised, but the old ones come first)
    std::vector<int> to(b.x.size(), -1); std::vector<char> used(pts.size(), 0);
    for (size_t i = 0; i < b.x.size(); i++) {
      int best = -1; double bd = 1e-9;
      for (size_t j = 0; j < pts.size(); j++) { double dd = norm(b.x[i] - pts[j].first); if (!used[j] && dd < bd) { bd = dd; best = (int)j; if (i == j) break; } }
      CHECK(c, best >= 0, k + ".points", "vertex %zu is where no old entity has its centre", i);
      if (best < 0) break;
      used[best] = 1; to[i] = best;
      CHECK(c, b.vc[i] == pts[best].second, k + ".vertex-class", "vertex %zu is classified %s, its parent %s", i, sk(b.vc[i]).c_str(), sk(pts[best].second).c_str());
      if (i < a.x.size()) CHECK(c, best == (int)i, k + ".old-first", "old vertex %zu is not in its place", i);
    }
    if (!c.failed()) {
      std::map<IV, std::pair<int, Cl>> want;          // sorted corner points -> old element
      Model mm; mm.dim = m.dim; for (auto& q : b.x) mm.x.push_back(q);
      if (!d3) for (size_t i = 0; i < a.f.size(); i++) for (int j = 0; j < 3; j++) {
        int v = a.f[i][j], p = a.f[i][(j + 2) % 3], q = a.f[i][(j + 1) % 3];
        want[sorted({key[{v}], key[sorted({v, q})], key[sorted(a.f[i])], key[sorted({v, p})]})] = {(int)i, a.fc[i]};
      }
      else for (size_t i = 0; i < a.rv.size(); i++) for (int j = 0; j < 4; j++) {
        IV R = a.rv[i]; int v = R[j]; IV s; R.erase(R.begin() + j);
        s = {key[{v}], key[sorted(a.rv[i])]};
        for (int q = 0; q < 3; q++) { s.push_back(key[sorted({v, R[q]})]); s.push_back(key[sorted({v, R[q], R[(q + 1) % 3]})]); }
        want[sorted(s)] = {(int)i, a.rc[i]};
      }
      size_t nel = d3 ? b.rv.size() : b.f.size();
      CHECK(c, nel == want.size(), k + ".elements", "%zu elements, should be %zu", nel, want.size());
      for (size_t i = 0; i < nel; i++) {
        IV vs = d3 ? b.rv[i] : b.f[i], s; for (int v : vs) s.push_back(to[v]);
        auto it = want.find(sorted(s));
        CHECK(c, it != want.end(), k + ".element", "element %zu (%s) is not around a corner of an old element", i, show(s).c_str());
        if (it == want.end()) break;
        Cl have = d3 ? b.rc[i] : b.fc[i];
        CHECK(c, have == it->second.second, k + ".element-class", "element %zu is classified %s, its parent %s", i, sk(have).c_str(), sk(it->second.second).c_str());
        if (d3) {
          MRegM R; R.type = T_HEX; R.v = vs; mm.r.push_back(R);
          CHECK(c, b.rt[i] == HEX, k + ".hex", "element %zu is not a hexahedron", i);
          MRegM old; old.type = T_TET; old.v = a.rv[it->second.first]; Model ma; ma.x = a.x; double vo = poly_volume(ma, reg_faces(old)), vn = poly_volume(mm, reg_faces(R));
          CHECK(c, vn * (vo > 0 ? 1 : -1) > 0 && std::fabs(vn - vo / 4) < 1e-9 * (std::fabs(vo) + 1e-9), k + ".volume", "element %zu has volume %.17g, a quarter of its parent is %.17g", i, vn, vo / 4);
        } else {
          MFaceM F; F.v = vs; mm.f.push_back(F);
          Model ma; ma.x = a.x; V3 A = poly_area_vec(ma, a.f[it->second.first]), B = poly_area_vec(mm, vs);
          CHECK(c, norm(B - (1.0 / 3) * A) < 1e-9 * (norm(A) + 1e-9), k + ".area", "element %zu does not have a third of the area of its parent, turned the same way", i);
        }
        want.erase(it);
      }
      if (!c.failed()) verify(c, wn, mm, VF_IDS | VF_COMMON | VF_ORIENT | VF_TEMPLATE, k + ".");
    }
  }
  MESH_Delete(w.m); MESH_Delete(n);
  c.note("%s %s %s, %d deleted, %d attribute values: %zu elements", k.c_str(), m.kind.c_str(), rep_name(rep), ndel, nval, d3 ? b.rv.size() : b.f.size());
  c.mix(model_hash(m)); c.mix(rep); c.nontrivial = a.f.size() > 1;
}
CASE(C25, del_interior, 1) {
  Rng& g = c.rng;
  GenOpt o; o.size = 3; RepType rep = g.chance(0.5) ? F1 : F4;
  Model m = gen(g, o);
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  int ndel = g.chance(0.3) ? make_holes(c, w.m, m.dim, 0.25) : 0;
  shuffle_ids(c, w.m, true, m.dim, 0.3);
  int D = m.dim; if (D == 3 && !MESH_Num_Regions(w.m)) D = 2;
  for (void* r : all_of(w.m, 3)) MR_Set_GEntID(r, g.range(1, 2));
  if (D == 2) for (void* f : all_of(w.m, 2)) { MF_Set_GEntDim(f, 2); MF_Set_GEntID(f, g.range(1, 2)); }
  MESH_BuildClassfn(w.m, 0);
  Dump a = dump_mesh(w.m);
  // what is inside, by what uses it: everything not on the boundary between differently labelled elements
  std::vector<std::vector<std::pair<void*, Cl>>> keep(4);
  for (int d = 0; d < 3; d++) for (void* p : all_of(w.m, d)) if (MEnt_GEntDim(p) != D && d < D) keep[d].push_back({p, Cl(MEnt_GEntDim(p), MEnt_GEntID(p))});
  std::map<void*, V3> x; for (auto& q : keep[0]) { double y[3]; MV_Coords(q.first, y); x[q.first] = {y[0], y[1], y[2]}; }
  std::map<void*, std::pair<void*, void*>> ev; for (auto& q : keep[1]) ev[q.first] = {ME_Vertex(q.first, 0), ME_Vertex(q.first, 1)};
  std::map<void*, PV> fv; for (auto& q : keep[2]) fv[q.first] = take(MF_Vertices(q.first, 1, 0));
  int ok = MESH_DelInterior(w.m);
  std::string k = D == 3 ? "interior3" : "interior2";
  CHECK(c, ok == 1, k + ".result", "returned %d", ok);
  CHECK(c, MESH_Num_Regions(w.m) == 0, k + ".regions", "%d regions left", MESH_Num_Regions(w.m));
  if (D == 2) CHECK(c, MESH_Num_Faces(w.m) == 0, k + ".faces", "%d faces left", MESH_Num_Faces(w.m));
  long left = 0;
  for (int d = 0; d < D; d++) {
    PV e = all_of(w.m, d); left += (long)e.size();
    CHECK(c, e.size() == keep[d].size(), k + ".count", "%zu entities of dimension %d left, should be %zu", e.size(), d, keep[d].size());
    for (size_t i = 0; i < e.size() && i < keep[d].size(); i++) { CHECK(c, e[i] == keep[d][i].first, k + ".which", "other entities of dimension %d left", d); if (e[i] != keep[d][i].first) break;
      CHECK(c, Cl(MEnt_GEntDim(e[i]), MEnt_GEntID(e[i])) == keep[d][i].second, k + ".class", "classification changed");
      if (d == 0) { double y[3]; MV_Coords(e[i], y); CHECK(c, (V3{y[0], y[1], y[2]}) == x[e[i]], k + ".coords", "vertex moved"); for (void* q : take(MV_Edges(e[i]))) CHECK(c, ev.count(q), k + ".vertex-edges", "vertex still knows a deleted edge"); }
      if (d == 1) { CHECK(c, std::make_pair((void*)ME_Vertex(e[i], 0), (void*)ME_Vertex(e[i], 1)) == ev[e[i]], k + ".edge", "edge changed"); for (void* q : take(ME_Faces(e[i]))) CHECK(c, fv.count(q), k + ".edge-faces", "edge still knows a deleted face"); }
      if (d == 2) { CHECK(c, take(MF_Vertices(e[i], 1, 0)) == fv[e[i]], k + ".face", "face changed"); CHECK(c, take(MF_Regions(e[i])).empty(), k + ".face-regions", "face still knows a region"); } }
  }
  MESH_Delete(w.m);
  c.note("%s %s, %d deleted before, %ld entities of the boundary left", m.kind.c_str(), rep_name(rep), ndel, left);
  c.mix(model_hash(m)); c.mix(rep); c.nontrivial = left > 4;
}

// ------------------------------------------------------------------ C26
CASE(C26, geometry, 1) {
  Rng& g = c.rng;
  static const RepType reps[] = {F1, F4, F1, R1, R2, R4};
  RepType rep = reps[g.below(6)]; bool full = rep == F1 || rep == F4;
  GenOpt o; o.size = full ? 3 : 2; if (rep == R1 || rep == R2) o.standard_only = true;
  Model m = gen(g, o);
  bool flat = g.chance(0.4);
  if (flat && m.dim == 2) for (auto& x : m.x) x[2] = 0;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  std::string k = std::string("geom.") + rep_name(rep);
  // coordinates as set
  for (int i = 0; i < 5; i++) { int v = g.below((int)m.x.size()); double x[3] = {g.real(-1e3, 1e3), g.real(-1e-3, 1e-3), g.real(-1, 1)}, y[3]; MV_Set_Coords(w.v[v], x); MV_Coords(w.v[v], y); CHECK(c, x[0] == y[0] && x[1] == y[1] && x[2] == y[2], k + ".coords", "coordinates read back differ"); for (int d = 0; d < 3; d++) x[d] = m.x[v][d]; MV_Set_Coords(w.v[v], x); }
  std::vector<std::array<double,3>> q(512);
  for (void* f : all_of(w.m, 2)) {
    int n = -1; MF_Coords(f, &n, (double(*)[3])q.data()); IV vs = w.Fc(f);
    CHECK(c, n == (int)vs.size(), k + ".MF_Coords.n", "%d points for %zu vertices", n, vs.size());
    for (int i = 0; i < n && i < (int)vs.size(); i++) CHECK(c, q[i][0] == m.x[vs[i]][0] && q[i][1] == m.x[vs[i]][1] && q[i][2] == m.x[vs[i]][2], k + ".MF_Coords", "point %d is not vertex %d", i, vs[i]);
    double cn[64]; n = -1; MF_CondNums(f, &n, cn);
    CHECK(c, n == (int)vs.size(), k + ".MF_CondNums.n", "%d numbers for %zu vertices", n, vs.size());
    for (int i = 0; i < n && i < (int)vs.size(); i++) {
      V3 a = m.x[vs[(i + 1) % n]] - m.x[vs[i]], b = m.x[vs[(i + n - 1) % n]] - m.x[vs[i]];
      double den = 2 * norm(cross(a, b)), want = (dot(a, a) + dot(b, b)) / den;
      if (den > 1e-3 * (dot(a, a) + dot(b, b))) CHECK(c, std::fabs(cn[i] - want) < 1e-6 * want, k + ".MF_CondNums", "condition number %.17g, should be %.17g", cn[i], want);
    }
    c.count("faces_measured");
  }
  for (void* r : all_of(w.m, 3)) {
    int n = -1; MR_Coords(r, &n, (double(*)[3])q.data()); IV vs = w.Rv(r);
    CHECK(c, n == (int)vs.size(), k + ".MR_Coords.n", "%d points for %zu vertices", n, vs.size());
    for (int i = 0; i < n && i < (int)vs.size(); i++) CHECK(c, q[i][0] == m.x[vs[i]][0] && q[i][1] == m.x[vs[i]][1] && q[i][2] == m.x[vs[i]][2], k + ".MR_Coords", "point %d is not vertex %d", i, vs[i]);
    c.count("regions_measured");
  }
  if (full) {
    PV E = all_of(w.m, 1);
    for (void* e : E) {
      int a = w.V(ME_Vertex(e, 0)), b = w.V(ME_Vertex(e, 1)); V3 d = m.x[b] - m.x[a]; double v[3]; ME_Vec(e, v);
      CHECK(c, v[0] == d[0] && v[1] == d[1] && v[2] == d[2], k + ".ME_Vec", "vector of edge (%d,%d) is wrong", a, b);
      CHECK(c, std::fabs(ME_LenSqr(e) - dot(d, d)) <= 1e-14 * dot(d, d), k + ".ME_LenSqr", "squared length %.17g, should be %.17g", ME_LenSqr(e), dot(d, d));
      CHECK(c, std::fabs(ME_Len(e) - norm(d)) <= 1e-14 * norm(d), k + ".ME_Len", "length %.17g, should be %.17g", ME_Len(e), norm(d));
      for (int s = 0; s < 2; s++) { void* v0 = ME_Vertex(e, s); for (void* f : take(MV_Edges(v0))) {
        if (f == e) continue;
        int o1 = w.V(ME_Vertex(e, 1 - s)), o2 = w.V(ME_OppVertex(f, v0)), z = w.V(v0); V3 p = m.x[o1] - m.x[z], r = m.x[o2] - m.x[z];
        double want = dot(p, r) / norm(p) / norm(r), have = MEs_Angle(e, f);
        if (o1 == o2) continue;
        CHECK(c, std::fabs(have - want) < 1e-12, k + ".MEs_Angle", "cosine %.17g, should be %.17g", have, want); c.count("angles");
      } }
      PV ef = take(ME_Faces(e));
      auto planar = [&](const IV& vs) { V3 n = poly_area_vec(m, vs); n = (1 / norm(n)) * n; for (int v : vs) if (std::fabs(dot(m.x[v] - m.x[vs[0]], n)) > 1e-12) return false;
        int N = (int)vs.size(); for (int i = 0; i < N; i++) if (dot(cross(m.x[vs[(i + 1) % N]] - m.x[vs[i]], m.x[vs[(i + 2) % N]] - m.x[vs[(i + 1) % N]]), n) < 1e-9) return false; return true; };
      for (void* f1 : ef) for (void* f2 : ef) {
        if (f1 == f2) continue;
        double have = MFs_DihedralAngle(f1, f2, e), back = MFs_DihedralAngle(f2, f1, e);
        CHECK(c, std::fabs(have - back) < 1e-9, k + ".dihedral-symmetric", "cosine between two faces is %.17g or %.17g depending on their order", have, back);
        CHECK(c, have <= 1 + 1e-9 && have >= -1 - 1e-9, k + ".dihedral-range", "cosine %.17g", have);
        IV v1 = w.Fc(f1), v2 = w.Fc(f2);
        int common = 0; for (int i : v1) common += (int)std::count(v2.begin(), v2.end(), i);
        if (common == 2) { double h2 = MFs_DihedralAngle(f1, f2, nullptr); CHECK(c, std::fabs(h2 - have) < 1e-12, k + ".dihedral-edge", "cosine %.17g without the edge given, %.17g with it", h2, have); }
        if (!planar(v1) || !planar(v2)) continue;
        V3 u = (1 / norm(d)) * d;
        auto perp = [&](const IV& vs) { V3 p = centroid(m, vs) - m.x[a]; p = p - dot(p, u) * u; return (1 / norm(p)) * p; };
        double want = dot(perp(v1), perp(v2));
        CHECK(c, std::fabs(have - want) < 1e-9, k + ".dihedral", "cosine of the angle between faces %s and %s is %.17g, should be %.17g", sk(v1).c_str(), sk(v2).c_str(), have, want);
        c.count("dihedral_angles");
      }
    }
  }
  MESH_Delete(w.m);
  c.note("%s %s%s", m.kind.c_str(), rep_name(rep), flat ? " flat" : "");
  c.mix(model_hash(m)); c.mix(rep); c.nontrivial = m.f.size() + m.r.size() > 1;
}

// ------------------------------------------------------------------ C29
CASE(C29, generic_description, 1) {
  Rng& g = c.rng;
  static const RepType reps[] = {F1, F4, F1, R1, R2};
  RepType rep = reps[g.below(5)]; bool full = rep == F1 || rep == F4;
  GenOpt o; o.size = full ? 3 : 2; if (rep == R1 || rep == R2) o.standard_only = true;
  Model m = gen(g, o);
  m.xe.clear();
  if (m.dim == 3) { m.f.clear(); m.nxf = 0; compact(m); }
  int nv = (int)m.x.size(), nf = m.dim == 2 ? (int)m.f.size() : 0, nr = (int)m.r.size();
  std::vector<std::array<double,3>> x; for (auto& p : m.x) x.push_back({p[0], p[1], p[2]});
  std::vector<IV> lists; IV cnt, nrf; std::vector<int*> ptr; std::vector<std::vector<IV>> tpl(nr); std::vector<std::vector<int*>> tp(nr); std::vector<int**> tpp;
  for (auto& f : m.f) if (nf) { lists.push_back(f.v); cnt.push_back((int)f.v.size()); }
  bool poly = false; for (auto& R : m.r) if (!R.fv.empty()) poly = true;
  bool tmpl = poly || (nr && full && g.chance(0.4));
  for (int i = 0; i < nr; i++) {
    auto& R = m.r[i];
    if (!tmpl) { lists.push_back(R.v); cnt.push_back((int)R.v.size()); continue; }
    IV vs; std::map<int,int> loc;
    auto fc = reg_faces(R);
    if (R.fv.empty()) { vs = R.v; for (size_t j = 0; j < vs.size(); j++) loc[vs[j]] = (int)j; }      // standard elements keep their vertex order
    else for (auto& f : fc) for (int v : f) if (!loc.count(v)) { loc[v] = (int)vs.size(); vs.push_back(v); }
    lists.push_back(vs); cnt.push_back((int)vs.size()); nrf.push_back((int)fc.size());
    for (auto& f : fc) { IV t = {(int)f.size()}; for (int v : f) t.push_back(loc[v]); tpl[i].push_back(t); }
    for (auto& t : tpl[i]) tp[i].push_back(t.data());
    tpp.push_back(tp[i].data());
  }
  for (auto& l : lists) ptr.push_back(l.data());
  auto savel = lists; auto savec = cnt; auto savet = tpl; auto savex = x;
  Mesh_ptr M = MESH_New(rep);
  int ok = MESH_InitFromGenDesc(M, nv, (double(*)[3])x.data(), nf, nf ? cnt.data() : nullptr, nf ? ptr.data() : nullptr, nr, nr ? cnt.data() : nullptr, nr ? ptr.data() : nullptr, nr ? nrf.data() : nullptr, tmpl ? tpp.data() : nullptr);
  std::string k = std::string("gendesc.") + rep_name(rep);
  CHECK(c, ok == 1, k + ".result", "returned %d", ok);
  CHECK(c, savel == lists && savec == cnt && savet == tpl && savex == x, k + ".input", "the description was changed");
  MView w; w.index_by_order(M);
  if (!c.failed()) {
    for (size_t i = 0; i < w.v.size(); i++) { double q[3]; MV_Coords(w.v[i], q); CHECK(c, q[0] == m.x[i][0] && q[1] == m.x[i][1] && q[2] == m.x[i][2] && MV_ID(w.v[i]) == (int)i + 1, k + ".vertex", "vertex %zu is not as described", i); }
    PV el = all_of(M, m.dim); CHECK(c, el.size() == lists.size(), k + ".n", "%zu elements, should be %zu", el.size(), lists.size());
    for (size_t i = 0; i < el.size() && i < lists.size(); i++) CHECK(c, (m.dim == 3 ? w.R(el[i]) : w.F(el[i])) == sorted(lists[i]) && MEnt_ID(el[i]) == (int)i + 1, k + ".element", "element %zu is not as described", i);
    if (m.dim == 2) for (size_t i = 0; i < el.size(); i++) CHECK(c, cyc(w.Fc(el[i]), lists[i]) == 1, k + ".direction", "face %zu is turned", i);
    verify(c, w, m, VF_IDS | VF_COMMON | VF_ORIENT | VF_TEMPLATE, k + ".");
  }
  MESH_Delete(M);
  c.note("%s into %s%s", m.kind.c_str(), rep_name(rep), tmpl ? " with face templates" : "");
  c.mix(model_hash(m)); c.mix(rep * 2 + tmpl); c.nontrivial = nf + nr > 1;
}
CASE(C29, generic_refusal, 1) {
  Rng& g = c.rng;
  // descriptions that cannot be used must be refused
  int how = g.below(3); double x[12][3]; for (auto& p : x) for (double& q : p) q = g.unit();
  int t[12]; for (int i = 0; i < 12; i++) t[i] = i; int* p[1] = {t}; int three = 3, n = how == 2 ? g.pick(std::vector<int>{7, 9, 10, 12}) : 4;
  Mesh_ptr M = MESH_New(F1);
  int ok = MESH_InitFromGenDesc(M, 12, x, how == 1 ? 1 : 0, &three, p, how ? 1 : 0, &n, p, nullptr, nullptr);
  CHECK(c, ok == 0, "gendesc.refusal", "returned %d for a description with %s", ok, how == 0 ? "only vertices" : how == 1 ? "faces and regions" : "an element of no known type");
  CHECK(c, MESH_Num_Regions(M) == 0 && MESH_Num_Faces(M) == 0, "gendesc.refusal-elements", "elements were made");
  MESH_Delete(M);
  c.note("refusal %d, %d vertices", how, n); c.mix(how * 100 + n); c.nontrivial = true;
}
