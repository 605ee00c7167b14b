// C23: the topology checker.
#include "geocls.h"
#include "MSTK_private.h"

struct Harm { std::string name; std::function<void()> doit, undo; };

CASE(C23, check_topo, 1) {
  Rng& g = c.rng;
  GenOpt o; o.size = g.chance(0.1) ? 5 : g.range(2, 3);
  Model m = gen(g, o);
  RepType rep = g.chance(0.6) ? F1 : F4;
  BuildOpt bo = rand_build(g, rep, m.dim); bo.classify = false;
  MView w = build(g, m, rep, bo);
  Mesh_ptr M = w.m;
  int how = g.below(4);                     // 0 nothing classified, 1 by BuildClassfn, else our own
  GeoNet n = geo_net(M);
  if (how == 1) { int q = g.range(1, 3); for (void* r : n.R) MR_Set_GEntID(r, g.range(1, q)); MESH_BuildClassfn(M, g.below(2)); }
  else if (how > 1) geo_classify(g, M, n, g.range(1, 3), g.chance(0.5) ? 1 : g.range(2, 3));
  else { for (void* v : n.V) { MV_Set_GEntDim(v, 4); } for (void* e : n.E) ME_Set_GEntDim(e, 4); for (void* f : n.F) MF_Set_GEntDim(f, 4); }
  c.note("%s %s how=%d V=%zu E=%zu F=%zu R=%zu", m.kind.c_str(), rep_name(rep), how, n.V.size(), n.E.size(), n.F.size(), n.R.size());
  c.mix(model_hash(m)); c.mix(how * 8 + rep); c.nontrivial = n.F.size() > 1;
  Dump before = dump_mesh(M);
  int ok = MESH_CheckTopo(M);
  std::string k = how == 0 ? "unclassified" : how == 1 ? "buildclassfn" : "classified";
  CHECK(c, ok == 1, "valid." + k, "a valid mesh is not accepted");
  same_dump(c, "mesh", dump_mesh(M), before, CmpOpt());
  c.count("valid_meshes");
  // harm it in a documented way
  auto dim = [](void* p) { return (int)MEnt_GEntDim(p); };
  auto gid = [](void* p) { return (int)MEnt_GEntID(p); };
  auto set = [](void* p, int d, int id) { MEnt_Set_GEntDim(p, d); MEnt_Set_GEntID(p, id); };
  int tries = g.range(2, 6);
  for (int t = 0; t < tries; t++) {
    std::vector<std::string> done;
    int kind = g.below(how == 0 ? 7 : 18);
    void* v = g.pick(n.V); void* e = g.pick(n.E); void* f = g.pick(n.F); void* r = n.R.empty() ? nullptr : g.pick(n.R);
    auto inner = [&](const PV& l, void*& q) { PV o; for (void* p : l) if (dim(p) == 3) o.push_back(p); if (!o.empty()) q = g.pick(o); };
    if (kind == 11) inner(n.E, e); if (kind == 13) inner(n.F, f); if (kind == 14) inner(n.V, v);
    std::string name; std::function<void()> undo;
    auto cls = [&](void* p, int d, int id, const char* nm) { int od = dim(p), oi = gid(p); set(p, d, id); name = nm; undo = [=]() { set(p, od, oi); }; };
    switch (kind) {
      case 0: {                                   // vertex does not know its edge
        v = ME_Vertex(e, g.below(2)); MV_Rem_Edge(v, e); name = "vertex-without-its-edge"; undo = [=]() { MV_Add_Edge(v, e); }; break; }
      case 1: {                                   // vertex knows a foreign edge
        if (ME_Vertex(e, 0) == v || ME_Vertex(e, 1) == v) break;
        MV_Add_Edge(v, e); name = "vertex-with-foreign-edge"; undo = [=]() { MV_Rem_Edge(v, e); }; break; }
      case 2: {                                   // edge does not know its face
        if (rep != F1) break;
        int i = n.ix[f]; e = g.pick(n.fe[i]); ME_Rem_Face(e, f); name = "edge-without-its-face"; undo = [=]() { ME_Add_Face(e, f); }; break; }
      case 3: {                                   // face does not know its region
        if (rep != F1 || !r) break;
        int i = n.ix[r]; f = g.pick(n.rf[i]); int side = !MR_FaceDir(r, f);
        MF_Rem_Region(f, r); name = "face-without-its-region"; undo = [=]() { MF_Add_Region(f, r, side); }; break; }
      case 4: {                                   // region uses a face the wrong way
        if (!r) break;
        int i = g.below(n.rf[n.ix[r]].size()), how2 = g.below(3); f = n.rf[n.ix[r]][i]; int d = MR_FaceDir(r, f);
        void* opp = nullptr; for (void* q : n.fr[n.ix[f]]) if (q != r) opp = q;
        if (how2 < 2) { auto flip = [=]() { how2 == 0 ? MR_Rev_FaceDir(r, f) : MR_Rev_FaceDir_i(r, i); }; flip(); undo = flip; }
        else { MR_Set_FaceDir(r, f, !d); undo = [=]() { MR_Set_FaceDir(r, f, d); if (opp) MR_Set_FaceDir(opp, f, !d); }; }
        name = "region-uses-face-wrong-way"; break; }
      case 5: {                                   // face uses an edge the wrong way
        if (!r) break;
        f = g.pick(n.rf[n.ix[r]]); int i = g.below(n.fe[n.ix[f]].size()), h2 = g.below(2); e = take(MF_Edges(f, 1, 0))[i];
        auto flip = [=]() { h2 ? MF_Rev_EdgeDir(f, e) : MF_Rev_EdgeDir_i(f, i); };
        flip(); name = "face-uses-edge-wrong-way"; undo = flip; break; }
      case 6: {                                   // both ends of an edge the same vertex
        int i = g.below(2); void *a = ME_Vertex(e, i), *b = ME_Vertex(e, !i);
        ME_Set_Vertex(e, i, b); MV_Rem_Edge(a, e); name = "edge-with-equal-ends"; undo = [=]() { ME_Set_Vertex(e, i, a); MV_Rem_Edge(b, e); MV_Rem_Edge(b, e); MV_Add_Edge(b, e); };
        break; }
      case 7: {                                   // vertex on something bigger than its edge
        int lo = 9; for (void* q : n.ve[n.ix[v]]) lo = std::min(lo, dim(q)); if (lo >= 3) break;
        cls(v, g.range(lo + 1, 3), g.chance(0.5) ? gid(v) : g.range(1, 9), "vertex-above-edge"); break; }
      case 8: {                                   // vertex and edge on different entities of one dimension
        void* q = nullptr; for (void* x : n.ve[n.ix[v]]) if (dim(x) == dim(v)) q = x; if (!q) break;
        cls(v, dim(v), gid(v) + g.range(1, 3), "vertex-beside-edge"); break; }
      case 9: {                                   // edge below its vertex
        v = ME_Vertex(e, g.below(2)); if (dim(v) < 1) break;
        cls(e, g.below(dim(v)), g.range(1, 9), "edge-below-vertex"); break; }
      case 10: case 11: {                         // edge wrongly on a model face
        int nb = 0, id = 0, two = 0; std::set<int> ids; for (void* q : n.ef[n.ix[e]]) if (dim(q) == 2) { nb++; id = gid(q); ids.insert(id); }
        two = nb == 2 && ids.size() == 1; if (two) { cls(e, 2, id + g.range(1, 3), "edge-on-other-face"); break; }
        int top = dim(ME_Vertex(e, 0)) <= 2 && dim(ME_Vertex(e, 1)) <= 2; (void)top;
        cls(e, 2, id ? id : g.range(1, 3), nb ? "edge-on-face-it-bounds" : "interior-edge-on-face"); break; }
      case 12: {                                  // boundary face in the interior
        if (n.fr[n.ix[f]].size() != 1 || dim(f) != 2) break;
        cls(f, 3, gid(n.fr[n.ix[f]][0]), "boundary-face-interior"); break; }
      case 13: {                                  // interior face on a model face
        if (dim(f) != 3) break; bool low = false; for (void* q : n.fe[n.ix[f]]) low |= dim(q) >= 2; if (!low) break;
        cls(f, 2, g.range(1, 3), "interior-face-on-boundary"); break; }
      case 14: {                                  // interior vertex on a model face
        if (dim(v) != 3) break;
        cls(v, 2, g.range(1, 3), "interior-vertex-on-boundary"); break; }
      case 15: {                                  // face on another model face than the edges in it
        bool has = false; for (void* q : n.fe[n.ix[f]]) has |= dim(q) == 2; if (dim(f) != 2 || !has) break;
        cls(f, 2, gid(f) + g.range(1, 3), "face-beside-its-edge"); break; }
      case 16: {                                  // face below its edge
        bool has = false; for (void* q : n.fe[n.ix[f]]) has |= dim(q) >= 2; if (!has || dim(f) < 2) break;
        cls(f, g.below(2), g.range(1, 3), "face-below-edge"); break; }
      default: {                                  // vertex of a model edge on a model face it is on the boundary of
        if (dim(v) > 1) break; void* q = nullptr; for (void* x : n.vf[n.ix[v]]) if (dim(x) == 2) q = x; if (!q) break;
        int lo = 9; for (void* x : n.ve[n.ix[v]]) lo = std::min(lo, dim(x)); if (lo > 1) break;
        cls(v, 2, gid(q), "corner-on-face"); break; }
    }
    if (name.empty()) continue;
    c.note("%s", name.c_str());
    int rc = MESH_CheckTopo(M);
    CHECK(c, rc == 0, "broken." + name, "a mesh broken by %s is accepted", name.c_str());
    c.count("broken_meshes"); c.count(("broken:" + name).c_str());
    undo();
    CHECK(c, MESH_CheckTopo(M) == 1, "restored." + name, "the mesh is not accepted after undoing %s", name.c_str());
  }
  MESH_Delete(M);
}
