// Operations on distributed meshes: P04, P05, P07, P08
#include "ops.h"

static void run_ops(Ctx& c, const char* what) {
  Rng& g = c.rng; std::string w = what; c.nontrivial = false;
  int np = g.range(2, par_world()); if (g.chance(0.05)) np = 1;
  bool weave = np > 1 && g.chance(0.3); int wtype = g.below(3);
  Model m; if (weave || w == "exchange") { GenOpt o; o.manifold = true; o.connected = g.chance(0.8); m = gen(g, o); m.xe.clear(); std::set<V3> s; for (auto& x : m.x) while (!s.insert(x).second) x[0] += 1e-3 * (1 + g.unit()); } else m = par_model(g);
  int n = m.dim == 2 ? (int)m.f.size() : (int)m.r.size(); if (np > n) np = n;
  Par p = par_comm(c, np); np = p.np; int ring = g.chance(0.12) ? 0 : g.chance(0.8) ? 1 : 2, natt = g.range(1, 5), nop = g.range(2, 6);
  if (weave && ring > 1) ring = 1; if (np < 2) weave = false;
  uint64_t ds = g.next(), os = g.next(); par_delays(ds, g.below(5));
  c.note("%s, %d elements on %d ranks%s, %d ghost layer(s), %d attributes, %d rounds", m.kind.c_str(), n, np, weave ? ", woven" : "", ring, natt, nop);
  if (p.in()) {
    DM M; Rng d(ds); if (weave) dm_weave(p, d, M, m, ring, wtype); else dm_distribute(p, d, M, m, ring);
    if (w != "exchange" && Rng(os + 1).chance(0.3)) dm_erase(c, p, os + 2, M);
    if (w == "erase") for (int i = 0, n = 1 + (int)(os % 3); i < n && !c.failed(); i++) dm_erase(c, p, mixh(os, i), M);
    Rng o(os); Ops O(c, p, M, o); O.add_atts(natt, w == "exchange"); O.compare("start");
    for (int i = 0; i < nop; i++) {
      O.assign();
      if (o.chance(0.12)) { O.renumber(); O.assign(); }
      if (w == "erase") { switch (o.below(4)) { case 0: O.update(); break; case 1: O.gathscat(); break; case 2: O.coords(); break; default: O.renumber(); } }
      if (w == "update") O.update();
      if (w == "gathscat") { O.gathscat(); if (o.chance(0.2)) O.update(); }
      if (w == "exchange") { if (o.chance(0.7)) O.exchange(); else O.coords(); if (o.chance(0.15)) O.update(); }
      if (w == "renumber") { O.renumber(); if (o.chance(0.3)) O.update(); if (o.chance(0.2)) O.gathscat(); if (o.chance(0.2)) O.coords(); }
    }
    int st = par_stray(p); CHECK(c, !st, "stray-message", "rank %d: a message with tag %d was sent and not received", p.rank, st - 1);
    MESH_Delete(M.my);
  }
  par_free(p);
  c.mix(model_hash(m)); c.mix(np * 100 + ring * 10 + weave); c.mix(ds); c.nontrivial = np > 1;
}
CASE(P04, update_attributes, 1) { run_ops(c, "update"); }
CASE(P05, gather_scatter, 1) { run_ops(c, "gathscat"); }
CASE(P07, coordinates_exchange, 1) { run_ops(c, "exchange"); }
CASE(P08, renumber_globally, 1) { run_ops(c, "renumber"); }
CASE(P13, take_away_put_back, 1) { run_ops(c, "erase"); }

// ---------------------------------------------------------------- weaving separate meshes
CASE(P06, weave, 1) {
  Rng& g = c.rng; std::string k = "weave";
  int np = g.range(2, par_world()); GenOpt o; o.manifold = true; o.connected = g.chance(0.85); Model m = gen(g, o); m.xe.clear();
  std::set<V3> s; for (auto& x : m.x) while (!s.insert(x).second) x[0] += 1e-3 * (1 + g.unit());
  int n = m.dim == 2 ? (int)m.f.size() : (int)m.r.size(); if (np > n) np = n;
  Par p = par_comm(c, np); np = p.np; int ring = g.chance(0.2) ? 0 : 1, type = g.below(3);
  uint64_t ds = g.next(); par_delays(ds, g.below(5));
  c.note("%s, %d elements on %d ranks, given %s, %d ghost layer(s)", m.kind.c_str(), n, np, type == 0 ? "nothing" : type == 1 ? "global IDs" : "neighbours", ring);
  if (p.in()) {
    DM M; Rng d(ds); IV gids, own; int ok = dm_weave(p, d, M, m, ring, type, &gids, &own); std::string kk = k + std::to_string(type);
    CHECK(c, ok, kk + ".result", "weaving returned %d", ok);
    if (p.root()) {
      Whole W(M.D, M.dim); IdOpt io; io.edgedir = false; io.facedir = false;
      judge(c, kk, "P01", W, M.ps, ring, &own, io);
      if (!c.failed()) judge(c, kk, "P03", W, M.ps, ring, &own, io);
      if (!c.failed()) { std::vector<Part> q = M.ps; if (type == 1) { std::map<V3, int> at; for (size_t i = 0; i < m.x.size(); i++) at[m.x[i]] = (int)i;
          for (int r = 0; r < np; r++) for (auto& e : q[r].e[0]) { int w = at[e.x]; CHECK(c, e.gid == gids[w], kk + ".gid-given", "rank %d vertex has global ID %d, was given %d", r, e.gid, gids[w]); e.gid = w + 1; } }
        judge(c, kk, "P02", W, q, ring, &own, io); }
    }
    judge_local(c, kk, "P02", M.my, M.dim, p.rank); judge_local(c, kk, "P03", M.my, M.dim, p.rank);
    int st = par_stray(p); CHECK(c, !st, kk + ".stray-message", "rank %d: a message with tag %d was sent and not received", p.rank, st - 1);
    MESH_Delete(M.my);
  }
  par_free(p);
  c.mix(model_hash(m)); c.mix(np * 100 + ring * 10 + type); c.mix(ds); c.nontrivial = np > 1;
}
