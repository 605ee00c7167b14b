// C13 native files, C14 Exodus II, C15 GMV and FLAG X3D, C16 STL, OFF and DX.
#include "meshcmp.h"
#include <unistd.h>

static std::string tmpname(const char* ext) {
  static std::atomic<int> n(0); const char* d = getenv("TMPDIR");
  return std::string(d ? d : "/tmp") + "/io" + std::to_string(getpid()) + "_" + std::to_string(n++) + ext;
}

// ------------------------------------------------------------------ C13
// what a mesh written as representation 'fr' and read into 'mr' should be, given what it was
CASE(C13, native_roundtrip, 3) {
  Rng& g = c.rng;
  static const RepType reps[] = {F1, F4, F1, R1, R2, R4};
  RepType rep = reps[g.below(6)];
  GenOpt o; o.size = 3; if (rep == R1 || rep == R2) o.standard_only = true;
  Model m = gen(g, o);
  bool full = rep == F1 || rep == F4;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  int ndel = 0; std::vector<void*> kept; std::set<void*> keptb;       // kept entities and what bounds them
  if (full && g.chance(0.4)) {          // gaps in the entity lists, kept deleted entities
    int D = m.dim; PV top = all_of(w.m, D);
    for (void* p : top) if (top.size() - ndel > 1 && g.chance(0.2)) {
      if (g.below(2)) {
        kept.push_back(p);
        List_ptr fs = D == 3 ? MR_Faces(p) : nullptr; int ix = 0; void* f;
        auto edges = [&](void* f) { List_ptr l = MF_Edges(f, 1, nullptr); int ix = 0; void* e; while ((e = List_Next_Entry(l, &ix))) keptb.insert(e); List_Delete(l); };
        if (fs) { while ((f = List_Next_Entry(fs, &ix))) { keptb.insert(f); edges(f); } List_Delete(fs); } else edges(p);
        MEnt_Delete(p, 1);
      } else MEnt_Delete(p, 0);
      ndel++;
    }
    if (g.chance(0.5)) for (int d = D - 1; d >= 1; d--) for (void* p : all_of(w.m, d)) {     // and what nothing uses any more
      List_ptr up = d == 2 ? MF_Regions(p) : ME_Faces(p); int used = up ? List_Num_Entries(up) : 0; if (up) List_Delete(up);
      if (!used && g.chance(0.8) && !keptb.count(p)) MEnt_Delete(p, 0);
    }
  }
  if (full && ndel && g.chance(0.5)) {                                // vertices nothing uses
    std::set<void*> vb; for (void* e : keptb) if (MEnt_Dim(e) == MEDGE) for (int j = 0; j < 2; j++) vb.insert(ME_Vertex(e, j));
    for (void* p : all_of(w.m, 0)) if (!vb.count(p)) {
      List_ptr es = MV_Edges(p); int used = es ? List_Num_Entries(es) : 0; if (es) List_Delete(es);
      if (!used) { MV_Delete(p, 0); c.count("unused vertices deleted"); }
    }
  }
  shuffle_ids(c, w.m, full, m.dim);
  classify_random(c, w.m);
  std::vector<MType> dims = {MVERTEX, MFACE, MALLTYPE}; if (full) dims.push_back(MEDGE); if (m.dim == 3) dims.push_back(MREGION);
  int nval = add_attributes(c, w.m, g.below(6), true, dims);
  Dump a = dump_mesh(w.m);
  std::string fn = tmpname(".mstk");
  bool viaexp = g.chance(0.3);
  int ok = viaexp ? MESH_ExportToFile(w.m, fn.c_str(), "mstk", 0, nullptr, nullptr, nullptr) : MESH_WriteToFile(w.m, fn.c_str(), g.chance(0.5) ? UNKNOWN_REP : rep, nullptr);
  std::string k = std::string("native.") + rep_name(rep);
  CHECK(c, ok == 1, k + ".write", "writing returned %d", ok);
  Dump a2 = dump_mesh(w.m);
  same_dump(c, k + ".writing-changed", a2, a);
  Mesh_ptr n = MESH_New(g.chance(0.5) ? UNKNOWN_REP : rep);
  ok = viaexp ? MESH_ImportFromFile(n, fn.c_str(), "mstk", nullptr, nullptr) : MESH_InitFromFile(n, fn.c_str(), nullptr);
  unlink(fn.c_str());
  CHECK(c, ok == 1, k + ".read", "reading returned %d", ok);
  CHECK(c, MESH_RepType(n) == rep, k + ".rep", "representation %d, should be %d", (int)MESH_RepType(n), (int)rep);
  Dump b = dump_mesh(n);
  // what is not stored: attributes that are pointers or have no value anywhere
  for (auto it = a.att.begin(); it != a.att.end();) if (it->second.type == POINTER || it->second.val.empty()) it = a.att.erase(it); else ++it;
  CmpOpt q; q.xtol = 6e-17; q.atol = 6e-7;
  same_dump(c, k, b, a, q);
  if (!ndel && !c.failed()) {
    Model mm = m;
    MView wn; wn.index_by_order(n);
    for (size_t i = 0; i < mm.x.size(); i++) mm.x[i] = b.x[i];
    verify(c, wn, mm, VF_IDS | VF_COMMON | VF_ORIENT | VF_TEMPLATE, "read.");
  }
  for (void* p : kept) MEnt_Delete(p, 0);
  MESH_Delete(w.m); MESH_Delete(n);
  c.note("%s %s%s, %d deleted, %d attribute values", m.kind.c_str(), rep_name(rep), viaexp ? " through export/import" : "", ndel, nval);
  c.mix(model_hash(m)); c.mix(rep); c.mix(nval); c.nontrivial = a.f.size() + a.rv.size() > 1;
}

CASE(C13, native_convert, 2) {
  Rng& g = c.rng;
  // (mesh, file, target)
  static const RepType combos[][3] = {{F1,F4,F1},{F1,F4,F4},{F4,F1,F1},{F4,F1,F4},{F1,R1,F1},{F1,R1,F4},{F1,R1,R1},{F4,R1,F1},{R1,R1,F1},{R1,R1,F4},{R2,R1,F1},{R2,R2,F1},{R2,R2,F4},{F1,R2,F1},{F4,R2,R2},
    {F1,R4,F1},{F1,R4,F4},{F1,R4,R4},{F4,R4,F1},{F4,R4,R4},{R4,R4,F1},{R4,R4,F4},{R4,R1,F1},{R1,R2,R2},{R2,R2,R1}};
  auto& K = combos[g.below(sizeof combos / sizeof combos[0])];
  GenOpt o; o.size = 3; if (K[0] == R1 || K[0] == R2 || K[1] == R1 || K[1] == R2) o.standard_only = true;
  Model m = gen(g, o);
  MView w = build(g, m, K[0], rand_build(g, K[0], m.dim));
  shuffle_ids(c, w.m, K[0] == F1 || K[0] == F4, m.dim);
  classify_random(c, w.m);
  std::vector<MType> dims = {MVERTEX}; if (m.dim == 3) dims.push_back(MREGION); else dims.push_back(MFACE);
  int nval = add_attributes(c, w.m, g.below(4), false, dims);
  Dump a = dump_mesh(w.m);
  std::string fn = tmpname(".mstk");
  std::string k = std::string("convert.") + rep_name(K[0]) + "-" + rep_name(K[1]) + "-" + rep_name(K[2]);
  int ok = MESH_WriteToFile(w.m, fn.c_str(), K[1], nullptr);
  CHECK(c, ok == 1, k + ".write", "writing returned %d", ok);
  Mesh_ptr n = MESH_New(K[2]);
  ok = MESH_InitFromFile(n, fn.c_str(), nullptr);
  unlink(fn.c_str());
  CHECK(c, ok == 1, k + ".read", "reading returned %d", ok);
  Dump b = dump_mesh(n);
  // vertices, elements and what is on them must be there in order, whatever the representation keeps of the rest
  Dump A, B;
  auto cut = [&](const Dump& s, Dump& t) { t.x = s.x; t.vc = s.vc; t.att = s.att; if (m.dim == 2) { t.f = s.f; t.fc = s.fc; for (auto& f : t.f) std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end()); } else { t.rc = s.rc; t.rt = s.rt; for (auto& v : s.rv) { t.rv.push_back(sorted(v)); t.rf.emplace_back(); } } };
  cut(a, A); cut(b, B);
  for (auto it = A.att.begin(); it != A.att.end();) if (it->second.val.empty()) it = A.att.erase(it); else ++it;
  CmpOpt q; q.xtol = 6e-17; q.atol = 6e-7;
  same_dump(c, k, B, A, q);
  if (!c.failed()) {
    Model mm = m; MView wn; wn.index_by_order(n);
    for (size_t i = 0; i < mm.x.size(); i++) mm.x[i] = b.x[i];
    verify(c, wn, mm, VF_IDS | VF_COMMON | VF_ORIENT | VF_TEMPLATE, k + ".");
  }
  MESH_Delete(w.m); MESH_Delete(n);
  c.note("%s %s written as %s read into %s, %d attribute values", m.kind.c_str(), rep_name(K[0]), rep_name(K[1]), rep_name(K[2]), nval);
  c.mix(model_hash(m)); c.mix(K[0] * 64 + K[1] * 8 + K[2]); c.nontrivial = A.f.size() + A.rv.size() > 1;
}
