// The same work under different message timings: P11
#include "ops.h"

static uint64_t fold(uint64_t h, const std::vector<double>& v) { for (double x : v) { uint64_t b; memcpy(&b, &x, 8); h = (h ^ b) * 1099511628211ull; h ^= h >> 29; } return h; }
struct Step { const char* what; uint64_t h; };
// everything follows from seed; the ranks are not held together between the operations
static std::vector<Step> work(const Par& p, uint64_t seed, const Model& m, int ring, int how, int nop) {
  Rng g(seed); std::vector<Step> out; DM M; M.index = false; std::vector<std::string> names;
  auto mark = [&](const char* w) { out.push_back({w, fold(fold(1469598103934665603ull, pack(M.my, M.dim)), pack_atts(M.my, M.dim, names))}); };
  if (how < 3) dm_weave(p, g, M, m, ring, how);
  else if (how < 7) dm_distribute(p, g, M, m, ring);
  else {   // with attributes and sets, the partitioning by the library
    M.dim = m.dim; M.np = p.np; M.rep = g.chance(0.7) ? F1 : F4; BuildOpt bo = rand_build(g, M.rep, m.dim); uint64_t bs = g.next(); int natt = g.range(1, 4), method = 0; Mesh_ptr whole = nullptr;
    if (p.root()) { Rng b(bs); MView w = build(b, m, M.rep, bo); whole = w.m; Ctx q; q.rng = Rng(bs + 1); classify_random(q, whole); std::vector<MType> dims = {MVERTEX, MEDGE, MFACE}; if (m.dim == 3) dims.push_back(MREGION); add_attributes(q, whole, natt, true, dims);
      int k = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(whole, &k))) { char s[300]; MAttrib_Get_Name(a, s); names.push_back(s); } }
    int dim = p.root() ? m.dim : 0; MSTK_Mesh_Distribute(whole, &M.my, &dim, ring, 1, method, 1, p.comm);
    names = bcast_names(p, names);
  }
  mark("distribution");
  struct A { MAttrib_ptr a; MAttType t; int d, nc; }; std::vector<A> at;
  for (int i = 0, n = g.range(1, 4); i < n; i++) { A a; static const MAttType T[] = {INT, DOUBLE, VECTOR, TENSOR}; a.t = T[g.below(4)]; a.d = i ? g.below(M.dim + 1) : M.dim - 1; a.nc = a.t == VECTOR ? g.range(1, 4) : a.t == TENSOR ? 9 : 1; std::string nm = "tm" + std::to_string(i);
    a.a = a.t == VECTOR || a.t == TENSOR ? MAttrib_New(M.my, nm.c_str(), a.t, (MType)a.d, a.nc) : MAttrib_New(M.my, nm.c_str(), a.t, (MType)a.d); at.push_back(a); names.push_back(nm); }
  auto assign = [&](int round) { for (auto& a : at) for (void* e : ents(M.my, a.d)) { uint64_t h = mixh(mixh(mixh(seed + a.d, round), p.rank), MEnt_GlobalID(e)); if (h % 5 == 0) continue; std::vector<double> v; for (int i = 0; i < a.nc; i++) v.push_back((double)((mixh(h, i) >> 11) % 2000003) / 977.0 - 900);
      MEnt_Set_AttVal(e, a.a, (int)v[0], v[0], a.nc > 1 || a.t == VECTOR ? v.data() : nullptr); } };
  for (int i = 0; i < nop; i++) {
    if (g.chance(0.6)) assign(i);
    auto& a = at[g.below((int)at.size())];
    switch (g.below(7)) {
      case 0: MESH_UpdateAttributes(M.my, p.comm); mark("attribute update"); break;
      case 1: MESH_Update1Attribute(M.my, a.a, p.comm); mark("update of one attribute"); break;
      case 2: case 3: { static const MAttOpType T[] = {ATTOP_MAX, ATTOP_MIN, ATTOP_SUM, ATTOP_AVG}; int t = g.below(4); if (a.t == INT && t == 3) t = 2; MESH_GathScat1Attribute(M.my, a.a, T[t], p.comm); mark("gather-scatter"); } break;
      case 4: MESH_XchngEdgeFaceAttrib(M.my, at[0].a, p.comm); mark("exchange"); break;
      case 5: for (void* v : ents(M.my, 0)) { double x[3]; MV_Coords(v, x); x[0] += 1e-3 * (p.rank + 1); MV_Set_Coords(v, x); } MESH_UpdateVertexCoords(M.my, p.comm); mark("coordinate update"); break;
      case 6: MESH_Renumber_GlobalIDs(M.my, g.chance(0.5) ? MALLTYPE : (MType)g.below(M.dim + 1), 0, nullptr, p.comm); mark("global renumbering"); break;
    }
  }
  MESH_Delete(M.my);
  return out;
}

CASE(P11, timing, 1) {
  Rng& g = c.rng; int np = g.range(2, par_world());
  GenOpt o; o.manifold = true; o.connected = g.chance(0.8); Model m = gen(g, o); m.xe.clear(); std::set<V3> s; for (auto& x : m.x) while (!s.insert(x).second) x[0] += 1e-3 * (1 + g.unit());
  int n = m.dim == 2 ? (int)m.f.size() : (int)m.r.size(); if (np > n) np = n;
  Par p = par_comm(c, np); np = p.np; int how = g.below(9), ring = g.chance(0.15) ? 0 : how < 3 || g.chance(0.75) ? 1 : 2, nop = g.below(7), runs = g.range(2, 4); uint64_t seed = g.next(), ds = g.next();
  static const char* hn[] = {"woven", "woven by given IDs", "woven with given neighbours", "distributed", "distributed", "distributed", "distributed", "distributed with attributes", "distributed with attributes"};
  c.note("%s, %d elements %s on %d ranks, %d ghost layer(s), %d operations, %d timings", m.kind.c_str(), n, hn[how], np, ring, nop, runs);
  if (p.in()) {
    std::vector<Step> first;
    for (int i = 0; i < runs; i++) {
      par_delays(ds + i, (int)((ds + i) % 5));
      std::vector<Step> r = work(p, seed, m, ring, how, nop);
      int st = par_stray(p); CHECK(c, !st, "traffic.stray-message", "rank %d: a message with tag %d was sent and not received", p.rank, st - 1);
      if (!i) { first = r; continue; }
      for (size_t k = 0; k < std::min(first.size(), r.size()); k++) { c.count("states_compared"); CHECK(c, first[k].h == r[k].h, std::string("timing.") + (k ? "operation" : "distribution"), "rank %d holds something else after %s (step %zu) in run %d", p.rank, r[k].what, k, i); if (first[k].h != r[k].h) break; }
    }
  }
  par_free(p);
  c.mix(model_hash(m)); c.mix(np * 100 + ring * 10 + how); c.mix(seed); c.mix(ds); c.nontrivial = np > 1;
}
