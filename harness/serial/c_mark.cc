// C28: markers themselves.
#include "meshcmp.h"
#ifdef MSTK_USE_MARKERS
extern std::set<int> g_known;
CASE(C28, marker_history, 6) {
  Rng& g = c.rng;
  GenOpt o; o.size = 2; o.many = false;
  Model m = gen(g, o);
  RepType rep = g.chance(0.5) ? F1 : F4;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim)); Mesh_ptr M = w.m;
  std::vector<PV> ent(4); for (int d = 0; d < 4; d++) ent[d] = all_of(M, d);
  PV all; for (auto& l : ent) all.insert(all.end(), l.begin(), l.end());
  std::set<int> used; { IV probe; int a = MSTK_GetMarker(); MSTK_FreeMarker(a); (void)probe; }
  std::map<int, std::set<void*>> on;            // markers in use -> marked entities
  std::vector<MSet_ptr> sets;
  for (int i = 0; i < 4; i++) { MSet_ptr s = MSet_New(M, ("s" + std::to_string(i)).c_str(), MALLTYPE); for (void* e : all) if (g.chance(0.3)) MSet_Add(s, e); sets.push_back(s); }
  auto entries = [&](MSet_ptr s) { PV r; int i = 0; void* e; while ((e = MSet_Next_Entry(s, &i))) r.push_back(e); return r; };
  int limit = 32 - 6 - 2, steps = g.range(10, 80), most = 0;
  auto verify_all = [&](const char* op) {
    long bad = 0; for (auto& q : on) for (void* e : all) { c.count("mark_checks"); if ((MEnt_IsMarked(e, q.first) != 0) != (q.second.count(e) != 0)) bad++; }
    CHECK(c, bad == 0, std::string("marks.after-") + op, "%ld marks are not what they were made after %s with %zu markers in use", bad, op, on.size());
  };
  bool many = g.chance(0.5);
  for (int t = 0; t < steps; t++) {
    int k = 0; if (!on.empty()) { auto it = on.begin(); std::advance(it, g.below(on.size())); k = it->first; }
    const char* op = "";
    switch (on.empty() ? 0 : g.below(10)) {
      case 0: case 1: case 2: {
        if ((int)on.size() >= limit) break;
        int nget = many ? g.range(1, 8) : 1;
        for (int q = 0; q < nget && (int)on.size() < limit; q++) {
          int mk = MSTK_GetMarker(); op = "get";
          CHECK(c, mk >= 1 && mk <= 32, "get.range", "marker %d", mk);
          CHECK(c, !on.count(mk), "get.in-use", "marker %d was handed out while in use", mk);
          long set = 0; for (void* e : all) set += MEnt_IsMarked(e, mk) != 0;
          CHECK(c, !set, "get.marked", "new marker %d: %ld entities are marked already", mk, set);
          on[mk]; g_known.insert(mk); c.count("markers_obtained");
        }
        most = std::max(most, (int)on.size()); break; }
      case 3: {                                 // unmark everything and free
        auto& s = on[k]; for (void* e : s) MEnt_Unmark(e, k);
        MSTK_FreeMarker(k); on.erase(k); g_known.erase(k); op = "free"; break; }
      case 4: { void* e = g.pick(all); MEnt_Mark(e, k); on[k].insert(e); op = "mark"; break; }
      case 5: { void* e = g.pick(all); MEnt_Unmark(e, k); on[k].erase(e); op = "unmark"; break; }
      case 6: { List_ptr l = List_New(4); for (void* e : all) if (g.chance(0.4)) { List_Add(l, e); on[k].insert(e); } if (g.chance(0.3) && List_Num_Entries(l) > 1) { void* e = List_Entry(l, 0); List_Rem(l, e); on[k].erase(e); if (MEnt_IsMarked(e, k)) MEnt_Unmark(e, k); } List_Mark(l, k); List_Delete(l); op = "list-mark"; break; }
      case 7: { List_ptr l = List_New(4); for (void* e : all) if (g.chance(0.4)) { List_Add(l, e); on[k].erase(e); } List_Unmark(l, k); List_Delete(l); op = "list-unmark"; break; }
      case 8: { MSet_ptr s = g.pick(sets); bool un = g.chance(0.4); for (void* e : entries(s)) if (un) on[k].erase(e); else on[k].insert(e); if (un) MSet_Unmark(s, k); else MSet_Mark(s, k); op = un ? "set-unmark" : "set-mark"; break; }
      default: {                                // operations that use markers themselves
        int which = g.below(3); MSet_ptr a = g.pick(sets), b = g.pick(sets); MSet_ptr u;
        std::set<void*> A, B, W, G; for (void* e : entries(a)) A.insert(e); for (void* e : entries(b)) B.insert(e);
        for (void* e : all) { bool x = A.count(e), y = B.count(e); if (which == 0 ? x || y : which == 1 ? x && y : x && !y) W.insert(e); }
        u = which == 0 ? MSets_Union(a, b) : which == 1 ? MSets_Intersect(a, b) : MSets_Subtract(a, b);
        PV r; if (u) r = entries(u); for (void* e : r) G.insert(e);
        op = which == 0 ? "union" : which == 1 ? "intersection" : "difference";
        CHECK(c, G == W && r.size() == G.size(), std::string("sets.") + op, "%zu entries (%zu distinct), expected %zu", r.size(), G.size(), W.size());
        if (u) MSet_Delete(u); break; }
    }
    if (*op) { verify_all(op); c.count("marker_steps"); }
  }
  c.mix(model_hash(m)); c.mix(steps * 64 + most); c.nontrivial = most > 1; c.note("%s: %d steps, at most %d markers at once", m.kind.c_str(), steps, most);
  for (auto& q : on) { for (void* e : q.second) MEnt_Unmark(e, q.first); MSTK_FreeMarker(q.first); g_known.erase(q.first); }
  MESH_Delete(M);
}
// as many markers as there are
CASE(C28, marker_limit, 1) {
  Rng& g = c.rng; GenOpt o; o.size = 2; o.many = false; Model m = gen(g, o); MView w = build(g, m, F1, rand_build(g, F1, m.dim));
  PV V = all_of(w.m, 0); std::vector<IV> on(33); IV mk; std::set<int> seen; int room = 32 - (int)0;
  // the case may hold some already: take what is left
  for (;;) { if ((int)mk.size() + (int)c.cnt["markers_held"] >= room) break; int k = MSTK_GetMarker(); CHECK(c, seen.insert(k).second && k >= 1 && k <= 32, "limit.get", "marker %d", k); mk.push_back(k); }
  std::vector<unsigned> bits(V.size());
  for (int rep = 0; rep < 3; rep++) {
    for (size_t i = 0; i < V.size(); i++) for (int k : mk) { if (g.chance(0.5)) { MEnt_Mark(V[i], k); bits[i] |= 1u << (k - 1); } else if (g.chance(0.5)) { MEnt_Unmark(V[i], k); bits[i] &= ~(1u << (k - 1)); } }
    for (size_t i = 0; i < V.size(); i++) for (int k : mk) { CHECK(c, (MEnt_IsMarked(V[i], k) != 0) == (((bits[i] >> (k - 1)) & 1) != 0), "limit.mark", "vertex %zu marker %d", i, k); c.count("mark_checks"); }
  }
  // free some, get them back
  g.shuffle(mk); int nf = g.range(1, (int)mk.size()); std::set<int> fr;
  for (int i = 0; i < nf; i++) { for (size_t v = 0; v < V.size(); v++) { MEnt_Unmark(V[v], mk[i]); bits[v] &= ~(1u << (mk[i] - 1)); } MSTK_FreeMarker(mk[i]); fr.insert(mk[i]); }
  for (int i = 0; i < nf; i++) { int k = MSTK_GetMarker(); CHECK(c, fr.erase(k) == 1, "limit.reuse", "marker %d obtained, not one of the freed ones", k); mk[i] = k; }
  for (size_t i = 0; i < V.size(); i++) for (int k : mk) CHECK(c, (MEnt_IsMarked(V[i], k) != 0) == (((bits[i] >> (k - 1)) & 1) != 0), "limit.mark-after-reuse", "vertex %zu marker %d", i, k);
  for (int k : mk) { for (void* v : V) MEnt_Unmark(v, k); MSTK_FreeMarker(k); }
  c.mix(model_hash(m)); c.mix(nf); c.nontrivial = nf > 1;
  MESH_Delete(w.m);
}
#endif
