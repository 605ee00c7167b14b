// C01, C02, C03: adjacency, representation independence, orientation.
#include "mstk_if.h"

static void start(Ctx& c, const Model& m, const char* extra) {
  c.note("%s V=%zu F=%zu R=%zu %s", m.kind.c_str(), m.x.size(), m.f.size(), m.r.size(), extra);
  c.mix(model_hash(m)); c.mixs(extra);
  c.nontrivial = m.f.size() + m.r.size() > 1;
}

CASE(C01, adj_full, 4) {
  Model m = gen(c.rng);
  RepType rep = c.rng.chance(0.5) ? F1 : F4;
  BuildOpt o = rand_build(c.rng, rep, m.dim);
  if (m.dim == 3 && c.rng.chance(0.2)) {     // standalone face and edge next to the solid
    int n0 = (int)m.x.size();
    m.x.push_back(m.x[0] + V3{50, 1, 0}); m.x.push_back(m.x[0] + V3{51, 2, 0}); m.x.push_back(m.x[0] + V3{50, 3, 1});
    MFaceM F; F.v = {n0, n0 + 1, n0 + 2}; m.f.push_back(F);
    m.x.push_back(m.x[0] + V3{60, 1, 0});
    m.xe.push_back({n0 + 3, n0});
  }
  char b[64]; snprintf(b, sizeof b, "%s froute %d rroute %d", rep_name(rep), o.froute, o.rroute);
  start(c, m, b);
  MView w = build(c.rng, m, rep, o);
  verify(c, w, m, VF_IDS | VF_COORDS | VF_COMMON | VF_ADJ);
  MESH_Delete(w.m);
}

CASE(C02, reps, 4) {
  GenOpt g;
  static const RepType reps[] = {F1, F4, R1, R2, R4};
  RepType rep = reps[c.index % 5];
  if (rep == R1 || rep == R2) g.many = c.rng.chance(0.05);
  Model m = gen(c.rng, g);
  BuildOpt o = rand_build(c.rng, rep, m.dim);
  char b[64]; snprintf(b, sizeof b, "%s froute %d rroute %d", rep_name(rep), o.froute, o.rroute);
  start(c, m, b);
  MView w = build(c.rng, m, rep, o);
  MESH_Set_AutoLock(w.m, c.rng.below(2));
  verify(c, w, m, VF_IDS | VF_COORDS | VF_COMMON | VF_ADJ | VF_ORIENT | VF_TEMPLATE);
  MESH_Delete(w.m);
}

CASE(C03, orient, 4) {
  GenOpt g;
  static const RepType reps[] = {F1, F4, F1, F4, R1, R2, R4};
  RepType rep = reps[c.index % 7];
  if (rep == R1 || rep == R2) g.many = c.rng.chance(0.05);
  Model m = gen(c.rng, g);
  BuildOpt o = rand_build(c.rng, rep, m.dim);
  char b[64]; snprintf(b, sizeof b, "%s froute %d rroute %d", rep_name(rep), o.froute, o.rroute);
  start(c, m, b);
  MView w = build(c.rng, m, rep, o);
  Topo t = topo(m);
  Verifier v(c, w, m, t, VF_IDS | VF_ORIENT | VF_TEMPLATE | (m.dim == 2 ? VF_FACEORIENT : 0));
  v.faces(); v.regions();
  MESH_Delete(w.m);
}
