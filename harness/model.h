// Reference model of a mesh: plain vertex tuples, no library code.
#pragma once
#include "vf.h"

typedef std::array<double, 3> V3;
inline V3 operator-(const V3& a, const V3& b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
inline V3 operator+(const V3& a, const V3& b) { return {a[0]+b[0], a[1]+b[1], a[2]+b[2]}; }
inline V3 operator*(double s, const V3& a) { return {s*a[0], s*a[1], s*a[2]}; }
inline double dot(const V3& a, const V3& b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline V3 cross(const V3& a, const V3& b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
inline double norm(const V3& a) { return std::sqrt(dot(a, a)); }

typedef std::vector<int> IV;
inline IV sorted(IV v) { std::sort(v.begin(), v.end()); return v; }

// templates of the standard elements (0 unknown, 1 tet, 2 pyramid, 3 prism, 4 hex), written down
// from the manual's pictures: bottom face first, faces oriented outward
enum { T_UNK = 0, T_TET = 1, T_PYR = 2, T_PRISM = 3, T_HEX = 4, T_POLY = 5 };
inline const std::vector<IV>& std_faces(int type) {
  static const std::vector<IV> t[5] = {
    {},
    {{0,2,1},{0,1,3},{1,2,3},{0,3,2}},
    {{0,3,2,1},{0,1,4},{1,2,4},{2,3,4},{3,0,4}},
    {{0,2,1},{3,4,5},{0,1,4,3},{1,2,5,4},{2,0,3,5}},
    {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}};
  return t[type];
}
inline int std_nv(int type) { static const int n[6] = {0,4,5,6,8,0}; return n[type]; }

// 1: same cycle, -1: reversed cycle, 0: different
inline int cyc(const IV& a, const IV& b) {
  size_t n = a.size();
  if (n != b.size() || !n) return 0;
  for (size_t s = 0; s < n; s++) if (a[s] == b[0]) {
    bool f = true, r = true;
    for (size_t i = 0; i < n; i++) {
      if (a[(s + i) % n] != b[i]) f = false;
      if (a[(s + n - i) % n] != b[i]) r = false;
    }
    if (f) return 1;
    if (r) return -1;
  }
  return 0;
}

struct MFaceM { IV v; int gdim = 4, gid = 0; };
struct MRegM { int type = T_POLY; IV v; std::vector<IV> fv; int gdim = 3, gid = 1; };

struct Model {
  int dim = 3;
  std::string kind;
  std::vector<V3> x;
  IV vgdim, vgid;                    // optional classification
  std::vector<MFaceM> f;             // surface elements / faces in 3D (standalone ones first, rest derived)
  std::vector<MRegM> r;
  std::vector<std::pair<int,int>> xe;   // edges not belonging to any face
  int nxf = 0;                       // 3D: number of faces in f that are given explicitly (not derived)
  int gid_of(int i) const { return i < (int)vgid.size() ? vgid[i] : 0; }
};

inline double tri_area(const V3& a, const V3& b, const V3& c) { return 0.5 * norm(cross(b - a, c - a)); }
inline V3 poly_area_vec(const Model& m, const IV& v) {
  V3 s = {0, 0, 0};
  for (size_t i = 1; i + 1 < v.size(); i++) s = s + 0.5 * cross(m.x[v[i]] - m.x[v[0]], m.x[v[i+1]] - m.x[v[0]]);
  return s;
}
inline V3 centroid(const Model& m, const IV& v) {
  V3 s = {0, 0, 0};
  for (int i : v) s = s + m.x[i];
  return (1.0 / v.size()) * s;
}
// volume by faces triangulated about their vertex average (well defined for non planar faces, and
// both sides of a face use the same triangulation, so volumes add up)
inline double poly_volume(const Model& m, const std::vector<IV>& fv) {
  double vol = 0;
  if (fv.empty()) return 0;
  V3 o = m.x[fv[0][0]];
  for (auto& f : fv) {
    V3 c = centroid(m, f) - o;
    for (size_t i = 0; i < f.size(); i++) {
      V3 a = m.x[f[i]] - o, b = m.x[f[(i + 1) % f.size()]] - o;
      vol += dot(c, cross(a, b)) / 6.0;
    }
  }
  return vol;
}
inline std::vector<IV> reg_faces(const MRegM& R) {
  if (!R.fv.empty()) return R.fv;
  std::vector<IV> o;
  for (auto& t : std_faces(R.type)) { IV f; for (int i : t) f.push_back(R.v[i]); o.push_back(f); }
  return o;
}

// full topology derived from the model
struct Topo {
  std::vector<std::pair<int,int>> e;             // a < b
  std::map<std::pair<int,int>, int> eidx;
  std::vector<IV> f;                             // one oriented cycle per face
  std::map<IV, int> fidx;                        // by sorted vertices
  std::vector<IV> fe;                            // face -> edges, consecutive
  std::vector<std::vector<std::pair<int,int>>> rf;   // region -> (face, 1 if f's cycle points out of the region)
  std::vector<IV> re, rv;                        // region -> edges, vertices (sorted)
  std::vector<IV> ve, vf, vr, vv, ef, er, fr, rr, ff;   // upward and same-dimension, sorted
  std::vector<std::array<int,2>> fside;          // region on side 0/1 of cycle (-1 none)
  int edge(int a, int b) const { auto it = eidx.find({std::min(a,b), std::max(a,b)}); return it == eidx.end() ? -1 : it->second; }
  int face(const IV& v) const { auto it = fidx.find(sorted(v)); return it == fidx.end() ? -1 : it->second; }
};

inline Topo topo(const Model& m) {
  Topo t;
  auto adde = [&](int a, int b) {
    std::pair<int,int> k(std::min(a,b), std::max(a,b));
    auto it = t.eidx.find(k);
    if (it != t.eidx.end()) return it->second;
    int i = (int)t.e.size(); t.e.push_back(k); t.eidx[k] = i; return i;
  };
  auto addf = [&](const IV& v) {
    IV k = sorted(v);
    auto it = t.fidx.find(k);
    if (it != t.fidx.end()) return it->second;
    int i = (int)t.f.size(); t.f.push_back(v); t.fidx[k] = i;
    IV es;
    for (size_t j = 0; j < v.size(); j++) es.push_back(adde(v[j], v[(j + 1) % v.size()]));
    t.fe.push_back(es); return i;
  };
  for (auto& f : m.f) addf(f.v);
  for (auto& R : m.r) {
    std::vector<std::pair<int,int>> rf;
    for (auto& fv : reg_faces(R)) { int fi = addf(fv); rf.push_back({fi, cyc(t.f[fi], fv) == 1 ? 1 : 0}); }
    t.rf.push_back(rf);
  }
  for (auto& e : m.xe) adde(e.first, e.second);
  size_t nv = m.x.size(), ne = t.e.size(), nf = t.f.size(), nr = m.r.size();
  std::vector<std::set<int>> ve(nv), vf(nv), vr(nv), vv(nv), ef(ne), er(ne), rr(nr), ff(nf), re(nr), rv(nr);
  t.fr.assign(nf, {}); t.fside.assign(nf, {{-1, -1}});
  for (size_t i = 0; i < ne; i++) {
    ve[t.e[i].first].insert((int)i); ve[t.e[i].second].insert((int)i);
    vv[t.e[i].first].insert(t.e[i].second); vv[t.e[i].second].insert(t.e[i].first);
  }
  for (size_t i = 0; i < nf; i++) {
    for (int v : t.f[i]) vf[v].insert((int)i);
    for (int e : t.fe[i]) ef[e].insert((int)i);
  }
  for (size_t i = 0; i < nr; i++) for (auto& fp : t.rf[i]) {
    t.fr[fp.first].push_back((int)i);
    t.fside[fp.first][fp.second ? 0 : 1] = (int)i;     // normal points out of i: i is on the negative side
    for (int v : t.f[fp.first]) { vr[v].insert((int)i); rv[i].insert(v); }
    for (int e : t.fe[fp.first]) { er[e].insert((int)i); re[i].insert(e); }
  }
  for (size_t i = 0; i < nf; i++) {
    for (int a : t.fr[i]) for (int b : t.fr[i]) if (a != b) rr[a].insert(b);
    for (int e : t.fe[i]) for (int g : ef[e]) if (g != (int)i) ff[i].insert(g);
  }
  auto cp = [](const std::vector<std::set<int>>& s, std::vector<IV>& d) { d.clear(); for (auto& q : s) d.emplace_back(q.begin(), q.end()); };
  cp(ve, t.ve); cp(vf, t.vf); cp(vr, t.vr); cp(vv, t.vv); cp(ef, t.ef); cp(er, t.er); cp(rr, t.rr); cp(ff, t.ff); cp(re, t.re); cp(rv, t.rv);
  for (auto& q : t.fr) std::sort(q.begin(), q.end());
  return t;
}

inline double total_measure(const Model& m) {
  double s = 0;
  if (!m.r.empty()) for (auto& R : m.r) s += poly_volume(m, reg_faces(R));
  else for (auto& f : m.f) s += norm(poly_area_vec(m, f.v));
  return s;
}

// ---------------------------------------------------------------- generators
struct GenOpt {
  bool standard_only = false;   // tri/quad, tet/pyr/prism/hex only
  bool manifold = false;        // no non manifold configurations, every element oriented consistently
  bool planar = false;          // surface in the z=0 plane
  bool connected = false;       // no cells removed
  bool keep_order = false;      // no permutation of vertices/elements
  bool convexish = false;       // little perturbation (valid elements)
  int size = 0;                 // 0 default
  int minreg = 1;
  bool many = true;             // now and then regions with more than 32 faces (slow in R1, R2)
};

inline void compact(Model& m) {         // drop unused vertices
  std::vector<int> use(m.x.size(), -1);
  auto mark = [&](const IV& v) { for (int i : v) use[i] = 0; };
  for (auto& f : m.f) mark(f.v);
  for (auto& R : m.r) { mark(R.v); for (auto& f : R.fv) mark(f); }
  for (auto& e : m.xe) use[e.first] = use[e.second] = 0;
  std::vector<V3> nx; int n = 0;
  for (size_t i = 0; i < use.size(); i++) if (!use[i]) { use[i] = n++; nx.push_back(m.x[i]); }
  m.x = nx;
  auto ren = [&](IV& v) { for (int& i : v) i = use[i]; };
  for (auto& f : m.f) ren(f.v);
  for (auto& R : m.r) { ren(R.v); for (auto& f : R.fv) ren(f); }
  for (auto& e : m.xe) { e.first = use[e.first]; e.second = use[e.second]; }
}

inline void permute(Rng& g, Model& m) {
  std::vector<int> p(m.x.size());
  std::iota(p.begin(), p.end(), 0);
  g.shuffle(p);
  std::vector<V3> nx(m.x.size());
  for (size_t i = 0; i < p.size(); i++) nx[p[i]] = m.x[i];
  m.x = nx;
  auto ren = [&](IV& v) { for (int& i : v) i = p[i]; };
  for (auto& f : m.f) { ren(f.v); std::rotate(f.v.begin(), f.v.begin() + g.below((int)f.v.size()), f.v.end()); }
  for (auto& R : m.r) { ren(R.v); for (auto& f : R.fv) ren(f); }
  for (auto& e : m.xe) { e.first = p[e.first]; e.second = p[e.second]; }
  if (m.dim == 2) g.shuffle(m.f);
  g.shuffle(m.r);
}

inline void transform(Rng& g, Model& m, bool planar) {
  double th = g.real(0, 6.28), s = g.real(0.3, 3.0);
  V3 t = {g.real(-5, 5), g.real(-5, 5), planar ? 0.0 : g.real(-5, 5)};
  double c = cos(th), q = sin(th), ph = planar ? 0 : g.real(0, 6.28), c2 = cos(ph), q2 = sin(ph);
  for (auto& x : m.x) {
    V3 y = {c * x[0] - q * x[1], q * x[0] + c * x[1], x[2]};
    V3 z = {y[0], c2 * y[1] - q2 * y[2], q2 * y[1] + c2 * y[2]};
    x = s * z + t;
  }
}

// 2D. kinds: quad, tri, mixed, poly (cells merged), with optional removal of cells; bent into 3D unless planar
inline Model gen2(Rng& g, GenOpt o = GenOpt()) {
  Model m; m.dim = 2;
  int lim = o.size ? o.size : 6;
  int nx = g.range(1, lim), ny = g.range(1, lim);
  int k = g.below(o.standard_only ? 3 : 4);
  static const char* names[] = {"quad", "tri", "mixed2", "polygon"};
  m.kind = names[k];
  auto id = [&](int i, int j) { return j * (nx + 1) + i; };
  double pert = o.convexish ? 0.15 : 0.25;
  for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++)
    m.x.push_back({i + g.real(-pert, pert), j + g.real(-pert, pert), 0});
  std::vector<MFaceM> cells;
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    IV q = {id(i,j), id(i+1,j), id(i+1,j+1), id(i,j+1)};
    bool split = k == 1 || (k == 2 && g.chance(0.5));
    MFaceM F;
    if (!split) { F.v = q; cells.push_back(F); }
    else if (g.chance(0.5)) { F.v = {q[0],q[1],q[2]}; cells.push_back(F); F.v = {q[0],q[2],q[3]}; cells.push_back(F); }
    else { F.v = {q[0],q[1],q[3]}; cells.push_back(F); F.v = {q[1],q[2],q[3]}; cells.push_back(F); }
  }
  if (k == 3) {
    // merge random pairs of horizontally adjacent quads (edges kept), giving 6-gons and, repeated, more
    int nm = g.range(1, std::max(1, nx * ny / 2));
    for (int t = 0; t < nm; t++) {
      int a = g.below((int)cells.size());
      // find a neighbour sharing exactly one edge
      for (size_t b = 0; b < cells.size(); b++) {
        if ((int)b == a) continue;
        IV &A = cells[a].v, &B = cells[b].v;
        if (A.size() + B.size() > 14) continue;
        int sh = 0; for (int v : A) for (int w : B) sh += v == w;
        if (sh != 2) continue;
        int n = (int)A.size(), nb = (int)B.size(), done = 0;
        for (int i = 0; i < n && !done; i++) for (int j = 0; j < nb; j++)
          if (A[i] == B[(j + 1) % nb] && A[(i + 1) % n] == B[j]) {
            IV N;
            for (int q = 0; q < n; q++) N.push_back(A[(i + 1 + q) % n]);     // from i+1 around to i
            for (int q = 2; q < nb; q++) N.push_back(B[(j + q) % nb]);
            cells[a].v = N; cells.erase(cells.begin() + b); done = 1; break;
          }
        if (done) break;
      }
    }
  }
  if (!o.connected && !o.manifold && cells.size() > 3 && g.chance(0.35)) {
    int rm = g.range(1, (int)cells.size() / 3);
    for (int t = 0; t < rm; t++) cells.erase(cells.begin() + g.below((int)cells.size()));
    m.kind += "-holes";
  }
  m.f = cells;
  if (!o.planar) {
    double a = g.real(-0.3, 0.3), b = g.real(-0.3, 0.3);
    for (auto& x : m.x) x[2] = a * x[0] * x[1] * 0.3 + b * x[0];
  }
  compact(m);
  if (!o.manifold && !o.planar && !o.connected && g.chance(0.15)) {
    // a fin: quads standing on an interior edge path (non manifold edges with 3 faces)
    Topo t = topo(m);
    std::vector<int> ie;
    for (size_t e = 0; e < t.e.size(); e++) if (t.ef[e].size() == 2) ie.push_back((int)e);
    if (!ie.empty()) {
      auto e = t.e[g.pick(ie)];
      int n0 = (int)m.x.size();
      m.x.push_back(m.x[e.first] + V3{0.01, 0.02, 1.1}); m.x.push_back(m.x[e.second] + V3{0.02, 0.01, 1.2});
      MFaceM F; F.v = {e.first, e.second, n0 + 1, n0}; m.f.push_back(F); m.kind += "-fin";
    }
  }
  if (!o.manifold && g.chance(0.2)) {        // inconsistent face orientations are legal in a surface mesh
    for (auto& f : m.f) if (g.chance(0.3)) std::reverse(f.v.begin(), f.v.end());
    m.kind += "-flip";
  }
  if (!o.keep_order) permute(g, m);
  transform(g, m, o.planar);
  m.kind += " " + std::to_string(nx) + "x" + std::to_string(ny);
  return m;
}

// rotate a standard element's vertex numbering by one of its orientation preserving symmetries
inline void spin(Rng& g, MRegM& R) {
  static const std::vector<IV> sym[5] = {{},
    {{0,1,2,3},{1,2,0,3},{2,0,1,3},{1,0,3,2},{3,2,1,0},{0,2,3,1},{0,3,1,2}},
    {{0,1,2,3,4},{1,2,3,0,4},{2,3,0,1,4},{3,0,1,2,4}},
    {{0,1,2,3,4,5},{1,2,0,4,5,3},{2,0,1,5,3,4},{3,5,4,0,2,1}},
    {{0,1,2,3,4,5,6,7},{1,2,3,0,5,6,7,4},{3,2,6,7,0,1,5,4},{4,7,6,5,0,3,2,1},{0,4,5,1,3,7,6,2}}};
  if (R.type < 1 || R.type > 4 || !R.fv.empty()) return;
  const IV& s = g.pick(sym[R.type]);
  IV o;
  for (int i : s) o.push_back(R.v[i]);
  R.v = o;
}

// 3D. kinds: hex, tet, prism, pyramid, mixed (hex+pyramid), prism+hex columns, polyhedra (merged cells), polygon columns
inline Model gen3(Rng& g, GenOpt o = GenOpt()) {
  Model m; m.dim = 3;
  int lim = o.size ? o.size : 3;
  int nx = g.range(1, lim), ny = g.range(1, lim), nz = g.range(1, lim);
  int k = g.below(o.standard_only ? 6 : 8);
  static const char* names[] = {"hex", "tet", "prism", "pyramid", "hexpyr", "hexprism", "polyhed", "polycol"};
  m.kind = names[k];
  double pert = o.convexish ? 0.08 : 0.12;
  if (k == 7) {            // extruded polygons: prisms over a polygonal mesh
    GenOpt o2; o2.planar = true; o2.manifold = true; o2.connected = true; o2.size = lim + 1; o2.keep_order = true;
    Model b = gen2(g, o2);
    int nb = (int)b.x.size();
    for (int l = 0; l <= nz; l++) for (auto& x : b.x) m.x.push_back({x[0], x[1], l + 0.1 * g.unit()});
    for (int l = 0; l < nz; l++) for (auto& f : b.f) {
      MRegM R; IV bot, top;
      for (int v : f.v) { bot.push_back(v + l * nb); top.push_back(v + (l + 1) * nb); }
      size_t n = bot.size();
      if (n == 3 || n == 4) { R.type = n == 3 ? T_PRISM : T_HEX; R.v = bot; R.v.insert(R.v.end(), top.begin(), top.end()); }
      else {
        R.type = T_POLY;
        R.fv.push_back(IV(bot.rbegin(), bot.rend())); R.fv.push_back(top);
        for (size_t i = 0; i < n; i++) { size_t j = (i + 1) % n; R.fv.push_back({bot[i], bot[j], top[j], top[i]}); }
      }
      m.r.push_back(R);
    }
  } else {
    auto id = [&](int i, int j, int l) { return (l * (ny + 1) + j) * (nx + 1) + i; };
    for (int l = 0; l <= nz; l++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++)
      m.x.push_back({i + g.real(-pert, pert), j + g.real(-pert, pert), l + g.real(-pert, pert)});
    std::vector<int> colsplit(nx * ny);
    for (auto& s : colsplit) s = k == 2 ? g.range(1, 2) : k == 5 ? g.range(0, 2) : 0;
    std::vector<std::array<int,3>> cellpos;
    for (int l = 0; l < nz; l++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
      IV h = {id(i,j,l), id(i+1,j,l), id(i+1,j+1,l), id(i,j+1,l), id(i,j,l+1), id(i+1,j,l+1), id(i+1,j+1,l+1), id(i,j+1,l+1)};
      MRegM R;
      if (k == 1) {        // Kuhn subdivision: conforming across cells
        static const int P[6][3] = {{1,2,4},{2,1,4},{1,4,2},{4,1,2},{2,4,1},{4,2,1}};
        static const int cub[8] = {0,1,3,2,4,5,7,6};     // bit pattern xyz -> hex corner
        for (auto& p : P) {
          int a = 0, b = p[0], c = p[0] | p[1], d = 7;
          IV v = {h[cub[a]], h[cub[b]], h[cub[c]], h[cub[d]]};
          V3 e1 = m.x[v[1]] - m.x[v[0]], e2 = m.x[v[2]] - m.x[v[0]], e3 = m.x[v[3]] - m.x[v[0]];
          if (dot(cross(e1, e2), e3) < 0) std::swap(v[1], v[2]);
          R.type = T_TET; R.v = v; m.r.push_back(R);
        }
      } else if (k == 3 || (k == 4 && g.chance(0.4))) {    // 6 pyramids around the cell center
        int c = (int)m.x.size();
        V3 s = {0,0,0}; for (int v : h) s = s + m.x[v];
        m.x.push_back(0.125 * s);
        for (auto& t : std_faces(T_HEX)) {     // outward quad: base seen from inside is its reverse
          R.type = T_PYR; R.v = {h[t[0]], h[t[3]], h[t[2]], h[t[1]], c}; m.r.push_back(R);
        }
      } else if (colsplit[j * nx + i] && (k == 2 || k == 5)) {
        R.type = T_PRISM;
        if (colsplit[j * nx + i] == 1) {
          R.v = {h[0],h[1],h[2],h[4],h[5],h[6]}; m.r.push_back(R);
          R.v = {h[0],h[2],h[3],h[4],h[6],h[7]}; m.r.push_back(R);
        } else {
          R.v = {h[0],h[1],h[3],h[4],h[5],h[7]}; m.r.push_back(R);
          R.v = {h[1],h[2],h[3],h[5],h[6],h[7]}; m.r.push_back(R);
        }
      } else { R.type = T_HEX; R.v = h; m.r.push_back(R); }
    }
    if (k == 6) {          // merge random face-neighbours into polyhedra
      for (auto& R : m.r) if (R.fv.empty()) R.fv = reg_faces(R);
      int nm = g.range(1, std::max(1, (int)m.r.size() / 2));
      for (int t = 0; t < nm && m.r.size() > 1; t++) {
        int a = g.below((int)m.r.size());
        for (size_t b = 0; b < m.r.size(); b++) {
          if ((int)b == a || m.r[a].fv.size() + m.r[b].fv.size() > 18) continue;
          int hits = 0, fa = -1, fb = -1;
          for (size_t p = 0; p < m.r[a].fv.size(); p++) for (size_t q = 0; q < m.r[b].fv.size(); q++)
            if (sorted(m.r[a].fv[p]) == sorted(m.r[b].fv[q])) { hits++; fa = (int)p; fb = (int)q; }
          if (hits != 1) continue;
          // no vertex may become interior and the union must not touch itself elsewhere
          std::set<int> va, vb, shf(m.r[a].fv[fa].begin(), m.r[a].fv[fa].end());
          for (auto& f : m.r[a].fv) va.insert(f.begin(), f.end());
          for (auto& f : m.r[b].fv) vb.insert(f.begin(), f.end());
          size_t common = 0; for (int v : va) common += vb.count(v);
          if (common != shf.size()) continue;
          std::vector<IV> nf;
          for (size_t p = 0; p < m.r[a].fv.size(); p++) if ((int)p != fa) nf.push_back(m.r[a].fv[p]);
          for (size_t q = 0; q < m.r[b].fv.size(); q++) if ((int)q != fb) nf.push_back(m.r[b].fv[q]);
          m.r[a].fv = nf; m.r[a].v.clear(); m.r[a].type = T_POLY;
          m.r.erase(m.r.begin() + b);
          break;
        }
      }
      // cells left alone are plain hexes
      for (auto& R : m.r) if (R.type == T_HEX && !R.v.empty()) R.fv.clear();
    }
  }
  if (k >= 6 && o.many && g.chance(0.2)) {      // many small faces about one or two regions: more than fit one word of direction bits
    int nb = g.range(1, 2), aim = g.chance(0.8) ? 33 : 20;
    for (int t = 0; t < nb; t++) {
      int a = g.below((int)m.r.size());
      for (int round = 0; round < 2; round++) {
        std::vector<IV> fs = m.r[a].fv.empty() ? reg_faces(m.r[a]) : m.r[a].fv;
        if ((int)fs.size() >= aim) break;
        std::map<IV, int> mid;
        for (auto& f : fs) {
          V3 s = {0,0,0}; for (int v : f) s = s + m.x[v];
          mid[sorted(f)] = (int)m.x.size(); m.x.push_back((1.0 / f.size()) * s);
        }
        for (auto& R : m.r) {
          std::vector<IV> of = R.fv.empty() ? reg_faces(R) : R.fv, nf; bool hit = false;
          for (auto& f : of) {
            auto it = mid.find(sorted(f));
            if (it == mid.end()) { nf.push_back(f); continue; }
            hit = true;
            for (size_t i = 0; i < f.size(); i++) nf.push_back({f[i], f[(i + 1) % f.size()], it->second});
          }
          if (hit) { R.fv = nf; R.v.clear(); R.type = T_POLY; }
        }
      }
    }
    m.kind += "-many";
  }
  if (!o.connected && !o.manifold && (int)m.r.size() > 3 && g.chance(0.35)) {
    int rm = g.range(1, (int)m.r.size() / 3);
    for (int t = 0; t < rm; t++) m.r.erase(m.r.begin() + g.below((int)m.r.size()));
    m.kind += "-holes";
  }
  compact(m);
  for (auto& R : m.r) spin(g, R);
  if (!o.keep_order) permute(g, m);
  transform(g, m, false);
  m.kind += " " + std::to_string(nx) + "x" + std::to_string(ny) + "x" + std::to_string(nz);
  return m;
}

inline Model gen(Rng& g, GenOpt o = GenOpt()) { return g.chance(0.4) ? gen2(g, o) : gen3(g, o); }
