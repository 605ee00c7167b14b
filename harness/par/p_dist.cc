// Distribution of one mesh over ranks: P01, P02, P03, P10, P11, P12
#include "pmesh.h"

CASE(P01, distribute, 1) {
  Rng& g = c.rng;
  int np = g.range(1, par_world()); if (np == 1 && g.chance(0.7)) np = 2;
  Model m = par_model(g);
  int n = m.dim == 2 ? (int)m.f.size() : (int)m.r.size(); if (np > n) np = n;
  Par p = par_comm(c, np); np = p.np;
  RepType rep = g.chance(0.7) ? F1 : F4;
  int ring = g.chance(0.15) ? 0 : g.chance(0.8) ? 1 : 2, mode = 5; bool force = np > 1 && g.chance(0.75), del = g.chance(0.4), pre = g.chance(0.3);
  IV parts = rand_parts(g, m, np, mode);
  BuildOpt bo = rand_build(g, rep, m.dim); uint64_t bs = g.next();
  int dly = g.below(5); par_delays(bs, dly);
  c.note("%s %s, %d elements on %d ranks, %d ghost layer(s), partitioning %s%s%s", m.kind.c_str(), rep_name(rep), n, np, ring, force ? std::to_string(mode).c_str() : "of the library", del ? ", input deleted" : "", pre ? ", given mesh" : "");
  if (p.in()) {
    std::string k = "distribute";
    Dump D; Mesh_ptr whole = nullptr, my = nullptr;
    if (p.root()) { Rng b(bs); MView w = build(b, m, rep, bo); whole = w.m; Ctx q; q.rng = Rng(bs + 1); classify_random(q, whole); D = dump_mesh(whole, false); }
    if (pre) my = MESH_New(p.root() ? rep : UNKNOWN_REP);
    int dim = p.root() ? m.dim : 0;
    g_parts = force ? &parts : nullptr; g_used = false;
    int ok = MSTK_Mesh_Distribute(whole, &my, &dim, ring, 0, 0, del, p.comm);
    g_parts = nullptr;
    CHECK(c, ok && my && dim == m.dim, k + ".result", "rank %d: distribution returned %d, dimension %d", p.rank, ok, dim);
    CHECK(c, MESH_RepType(my) == rep, k + ".rep", "rank %d: representation is %s, should be %s", p.rank, rep_name(MESH_RepType(my)), rep_name(rep));
    std::vector<Part> ps = collect(p, my, m.dim);
    if (p.root()) {
      Whole W(D, m.dim); judge(c, k, c.prop, W, ps, ring, g_used ? &parts : nullptr, IdOpt());
      if (whole && !del && c.prop == "P01") { Dump E = dump_mesh(whole, false); CmpOpt o; same_dump(c, k + ".input", E, D, o); }
    }
    judge_local(c, k, c.prop, my, m.dim, p.rank);
    int st = par_stray(p); CHECK(c, !st, k + ".stray-message", "rank %d: a message with tag %d was sent and not received", p.rank, st - 1);
    MESH_Delete(my); if (whole && !del) MESH_Delete(whole);
  }
  par_free(p);
  c.mix(model_hash(m)); c.mix(np * 100 + ring * 10 + force); for (int q : parts) c.mix(q); c.nontrivial = np > 1;
}
CASE_ALSO(P02, distribute, 1)
CASE_ALSO(P03, distribute, 1)

// ---------------------------------------------------------------- attributes and sets
CASE(P12, distribute_attributes, 1) {
  Rng& g = c.rng; std::string k = "attributes";
  int np = g.range(2, par_world());
  Model m = par_model(g);
  int n = m.dim == 2 ? (int)m.f.size() : (int)m.r.size(); if (np > n) np = n;
  Par p = par_comm(c, np); np = p.np;
  RepType rep = g.chance(0.7) ? F1 : F4;
  int ring = g.chance(0.8) ? 1 : 2, mode; bool del = g.chance(0.4), pre = g.chance(0.3), twice = !del && g.chance(0.3);
  IV parts = rand_parts(g, m, np, mode);
  BuildOpt bo = rand_build(g, rep, m.dim); uint64_t bs = g.next(); int natt = g.chance(0.1) ? 0 : g.range(1, 6), nset = g.chance(0.15) ? 0 : g.range(1, 5);
  par_delays(bs, g.below(5));
  c.note("%s %s, %d elements on %d ranks, %d ghost layer(s), %d attributes, %d sets%s%s", m.kind.c_str(), rep_name(rep), n, np, ring, natt, nset, twice ? ", distributed twice" : "", pre ? ", given mesh" : "");
  if (p.in()) {
    Dump D; Mesh_ptr whole = nullptr;
    if (p.root()) {
      Rng b(bs); MView w = build(b, m, rep, bo); whole = w.m; Ctx q; q.rng = Rng(bs + 1); classify_random(q, whole);
      std::vector<MType> dims = {MVERTEX, MEDGE, MFACE}; if (m.dim == 3) dims.push_back(MREGION);
      add_attributes(q, whole, natt, true, dims);
      for (int s = 0; s < nset; s++) {
        MType T = q.rng.chance(0.2) ? MALLTYPE : q.rng.pick(dims); std::string nm = "set" + std::to_string(s) + std::string(q.rng.below(9), 'w');
        MSet_ptr ms = MSet_New(whole, nm.c_str(), T); double f = q.rng.chance(0.15) ? 0 : q.rng.chance(0.2) ? 1 : q.rng.unit();
        PV all; for (int d = 0; d < 4; d++) if (T == MALLTYPE || (int)T == d) { PV e = all_of(whole, d); all.insert(all.end(), e.begin(), e.end()); }
        q.rng.shuffle(all); for (void* e : all) if (q.rng.chance(f)) MSet_Add(ms, e);
      }
      D = dump_mesh(whole, true);
      for (auto& a : D.att) if (a.second.type == POINTER) a.second.val.clear();
    }
    std::vector<std::string> an, sn; if (p.root()) { for (auto& s : D.attorder) if (D.att[s].type != POINTER) an.push_back(s); sn = D.setorder; }
    an = bcast_names(p, an); sn = bcast_names(p, sn);
    for (int round = 0; round < (twice ? 2 : 1); round++) {
      Mesh_ptr my = pre ? MESH_New(p.root() ? rep : UNKNOWN_REP) : nullptr; int dim = p.root() ? m.dim : 0;
      if (round) { Rng z(bs + 5); parts = rand_parts(z, m, np, mode); }
      g_parts = &parts; MSTK_Mesh_Distribute(whole, &my, &dim, ring, 1, 0, del, p.comm); g_parts = nullptr;
      std::vector<Part> ps = collect(p, my, m.dim);
      auto A = par_gather(p, pack_atts(my, m.dim, an)), S = par_gather(p, pack_sets(my, m.dim, sn));
      if (p.root()) {
        Whole W(D, m.dim); Ctx mute; long nv = 0, ns = 0;
        for (int r = 0; r < np; r++) {
          Ident I = identify(mute, k, W, ps[r], r, IdOpt()); auto at = unpack_atts(A[r], ps[r], m.dim, an.size());
          for (size_t a = 0; a < an.size(); a++) {
            const DAtt& X = D.att[an[a]]; const PAtt& Y = at[a]; const char* nm = an[a].c_str();
            CHECK(c, Y.there, k + ".missing", "rank %d has no attribute %s", r, nm); if (!Y.there) continue;
            CHECK(c, Y.type == (int)X.type && Y.ed == (int)X.dim && Y.nc == X.nc, k + ".def", "rank %d attribute %s has type %d dim %d comps %d, should be %d %d %d", r, nm, Y.type, Y.ed, Y.nc, (int)X.type, (int)X.dim, X.nc);
            for (int d = 0; d <= m.dim; d++) for (size_t i = 0; i < Y.val[d].size(); i++) {
              int w = I.at[d][i]; if (w < 0) continue; auto it = X.val.find({d, w}); nv++;
              std::vector<double> z = Y.val[d][i], want = it == X.val.end() ? std::vector<double>() : it->second;
              z.resize(X.nc, 0.0); want.resize(X.nc, 0.0);
              CHECK(c, z == want, k + ".value", "rank %d attribute %s (type %d) on its %s entity (%d,%d) is %.17g..., should be %.17g...", r, nm, Y.type, ps[r].e[d][i].pt == PGHOST ? "ghost" : "own", d, w, z[0], want[0]);
            }
          }
          size_t q = 0;
          for (auto& s : sn) {
            const DSet& X = D.set[s]; int there = (int)S[r][q++]; CHECK(c, there, k + ".set-missing", "rank %d has no set %s", r, s.c_str()); if (!there) continue;
            int dm = (int)S[r][q++], cnt = (int)S[r][q++]; std::set<std::pair<int,int>> got, want, glob(X.e.begin(), X.e.end());
            CHECK(c, dm == (int)X.dim, k + ".set-dim", "rank %d set %s has dimension %d, should be %d", r, s.c_str(), dm, (int)X.dim);
            for (int j = 0; j < cnt; j++) { int d = (int)S[r][q++], i = (int)S[r][q++]; got.insert({d, d < 0 ? -1 : I.at[d][i]}); }
            CHECK(c, (int)got.size() == cnt, k + ".set-twice", "rank %d set %s has %d members, %zu different ones", r, s.c_str(), cnt, got.size());
            for (int d = 0; d <= m.dim; d++) for (int w : I.at[d]) if (glob.count({d, w})) want.insert({d, w});
            CHECK(c, got == want, k + ".set", "rank %d set %s has %zu members, should have %zu", r, s.c_str(), got.size(), want.size()); ns++;
          }
        }
        c.count("attribute_values", nv); c.count("sets", ns);
        if (!del) { Dump E = dump_mesh(whole, true); E.att.erase("Global2Local"); for (auto& a : E.att) if (a.second.type == POINTER) a.second.val.clear(); CmpOpt o; same_dump(c, k + ".input", E, D, o); }
      }
      int st = par_stray(p); CHECK(c, !st, k + ".stray-message", "rank %d: a message with tag %d was sent and not received", p.rank, st - 1);
      MESH_Delete(my);
    }
    if (whole && !del) MESH_Delete(whole);
  }
  par_free(p);
  c.mix(model_hash(m)); c.mix(np * 100 + ring * 10); for (int q : parts) c.mix(q); c.mix(bs); c.nontrivial = np > 1 && natt + nset;
}

// ---------------------------------------------------------------- partitioners
// columns over a planar base; col: element -> column
static Model column_model(Rng& g, IV& col) {
  GenOpt o; o.connected = true; o.manifold = true; o.planar = true; Model b; do b = gen2(g, o); while (b.f.size() > 60);
  int L = g.range(1, 6), nb = (int)b.x.size(); Model m; m.dim = 3; m.kind = "columns over " + b.kind + " x" + std::to_string(L);
  double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9}; for (auto& x : b.x) for (int k = 0; k < 2; k++) { lo[k] = std::min(lo[k], x[k]); hi[k] = std::max(hi[k], x[k]); }
  double sc = 10 / std::max(1e-9, std::max(hi[0] - lo[0], hi[1] - lo[1]));
  std::vector<double> z0; for (int i = 0; i < nb; i++) z0.push_back(g.real(-1, 1));
  std::vector<double> th; for (int l = 0; l < L; l++) th.push_back(g.real(0.2, 2));
  for (int l = 0; l <= L; l++) { double z = 0; for (int q = 0; q < l; q++) z += th[q]; for (int i = 0; i < nb; i++) m.x.push_back({(b.x[i][0] - lo[0]) * sc, (b.x[i][1] - lo[1]) * sc, z0[i] + z}); }
  struct E { MRegM r; int c; }; std::vector<E> es;
  for (size_t f = 0; f < b.f.size(); f++) { IV v = b.f[f].v; double a = 0; for (size_t k = 0; k < v.size(); k++) { const V3 &p = b.x[v[k]], &q = b.x[v[(k + 1) % v.size()]]; a += p[0] * q[1] - p[1] * q[0]; } if (a < 0) std::reverse(v.begin(), v.end());
    for (int l = 0; l < L; l++) {
      E e; e.c = (int)f; int n = (int)v.size(); IV lo_, up; for (int q : v) { lo_.push_back(q + l * nb); up.push_back(q + (l + 1) * nb); }
      if (n == 3 || n == 4) { e.r.type = n == 3 ? T_PRISM : T_HEX; e.r.v = lo_; e.r.v.insert(e.r.v.end(), up.begin(), up.end()); }
      else { e.r.type = T_POLY; IV d(lo_.rbegin(), lo_.rend()); e.r.fv = {d, up}; for (int k = 0; k < n; k++) e.r.fv.push_back({lo_[k], lo_[(k + 1) % n], up[(k + 1) % n], up[k]}); }
      es.push_back(e);
    } }
  g.shuffle(es); for (auto& e : es) { m.r.push_back(e.r); col.push_back(e.c); }
  return m;
}
// many faces about one edge
static Model book_model(Rng& g) {
  Model m; m.dim = 2; m.kind = "book"; m.x = {{0,0,0},{0,0,1}}; int n = g.range(2, 24);
  for (int i = 0; i < n; i++) { double a = 6.28 * i / n; int v = (int)m.x.size(); m.x.push_back({cos(a), sin(a), 0}); m.x.push_back({cos(a), sin(a), 1}); MFaceM F; F.v = g.chance(0.5) ? IV{0, v, v + 1, 1} : IV{1, v + 1, v, 0}; F.gdim = 2; m.f.push_back(F); }
  return m;
}
CASE(P10, partition, 1) {
  Rng& g = c.rng; std::string k = "partition";
  int method = g.below(3); IV col; Model m = g.chance(0.4) ? column_model(g, col) : g.chance(0.1) ? book_model(g) : par_model(g);
  if (method == 2 && m.dim == 3 && col.empty()) m = column_model(g, col);
  int n = m.dim == 2 ? (int)m.f.size() : (int)m.r.size(), np = g.range(1, par_world());
  Par p = par_comm(c, np); np = p.np; RepType rep = g.chance(0.7) ? F1 : F4;
  BuildOpt bo = rand_build(g, rep, m.dim); uint64_t bs = g.next(); par_delays(bs, g.below(5)); bool dist = g.chance(0.4);
  c.note("%s %s, %d elements, %d parts, method %d%s", m.kind.c_str(), rep_name(rep), n, np, method, dist ? ", distributed" : "");
  if (p.in()) {
    Mesh_ptr whole = nullptr; Dump D; MView w;
    if (p.root()) { Rng b(bs); w = build(b, m, rep, bo); whole = w.m; D = dump_mesh(whole, false); }
    std::string mk = k + std::to_string(method); int* part = nullptr, ok = MESH_Get_Partitioning(whole, method, &part, p.comm);
    CHECK(c, ok, mk + ".result", "rank %d: partitioning returned %d", p.rank, ok);
    IV P;
    if (p.root()) {
      CHECK(c, part, mk + ".none", "no partitioning of %d elements in %d parts", n, np);
      if (part) {
        P.assign(part, part + n); std::vector<int> cnt(np, 0); bool in = true;
        for (int i = 0; i < n; i++) { CHECK(c, P[i] >= 0 && P[i] < np, mk + ".range", "element %d of %d goes to part %d of %d", i, n, P[i], np); if (P[i] < 0 || P[i] >= np) in = false; else cnt[P[i]]++; }
        Topo T = topo(m); std::map<std::pair<int,int>, int> dummy; std::vector<std::pair<int,int>> adj; Whole W(D, m.dim);
        std::map<int, IV> sh; for (int e = 0; e < n; e++) for (int s : W.cl[m.dim - 1][e]) sh[s].push_back(e);
        for (auto& q : sh) for (size_t a = 0; a < q.second.size(); a++) for (size_t b = a + 1; b < q.second.size(); b++) adj.push_back({q.second[a], q.second[b]});
        IV comp(n); std::iota(comp.begin(), comp.end(), 0); std::function<int(int)> find = [&](int a) { return comp[a] == a ? a : comp[a] = find(comp[a]); };
        for (auto& q : adj) comp[find(q.first)] = find(q.second); bool conn = true; for (int i = 0; i < n; i++) conn &= find(i) == find(0);
        if (in && np > 1 && n >= 16 * np && conn && method < 2) {
          for (int r = 0; r < np; r++) CHECK(c, cnt[r], mk + ".empty-part", "part %d of %d has none of %d elements", r, np, n);
          int cut = 0; for (auto& q : adj) cut += P[q.first] != P[q.second];
          CHECK(c, cut <= 0.75 * (1 - 1.0 / np) * adj.size(), mk + ".scattered", "%d of %zu adjacent pairs of %d elements are cut by %d parts", cut, adj.size(), n, np);
          c.count("large_partitionings");
        }
        if (method == 2 && !col.empty()) { std::map<int, int> of; 
          // element of the model at each place of the mesh
          for (int i = 0; i < n; i++) { const V3 ce = [&] { V3 s = {0, 0, 0}; for (int v : W.ev[i]) s = s + D.x[v]; return (1.0 / W.ev[i].size()) * s; }(); int best = -1; double bd = 1e300;
            for (int j = 0; j < n; j++) { IV all; for (auto& f : reg_faces(m.r[j])) all.insert(all.end(), f.begin(), f.end()); std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end()); double d = norm(centroid(m, all) - ce); if (d < bd) { bd = d; best = j; } }
            auto q = of.insert({col[best], P[i]}); CHECK(c, q.first->second == P[i], mk + ".column-split", "column %d is divided between parts %d and %d of %d", col[best], q.first->second, P[i], np); }
          c.count("columns", (long)of.size()); }
        free(part);
      }
    }
    int need = 0; if (p.root()) { std::set<int> u(P.begin(), P.end()); need = (int)u.size() == np; }
    PMPI_Bcast(&need, 1, MPI_INT, 0, p.own);
    if (dist && need && !c.failed() && method != 1) {   // method 1 draws random numbers
      Mesh_ptr my = nullptr; int dim = p.root() ? m.dim : 0; MSTK_Mesh_Distribute(whole, &my, &dim, 1, 0, method, 0, p.comm);
      std::vector<Part> ps = collect(p, my, m.dim);
      if (p.root()) { Whole W(D, m.dim); judge(c, mk + ".distribute", "P01", W, ps, 1, &P, IdOpt()); }
      MESH_Delete(my);
    }
    if (whole) MESH_Delete(whole);
  }
  par_free(p);
  c.mix(model_hash(m)); c.mix(np * 10 + method); c.mix(bs); c.nontrivial = np > 1 && n > np;
}
