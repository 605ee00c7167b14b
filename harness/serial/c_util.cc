// C07 attributes, C08 mesh sets, C09 lists: random operation histories against plain models.
#include "mstk_if.h"
#include "meshcmp.h"

// ------------------------------------------------------------------ lists
struct Item { int key, uid; };
static int item_key(void* p) { return ((Item*)p)->key; }
static int cmp_item(const void* a, const void* b) {
  const Item *x = *(Item* const*)a, *y = *(Item* const*)b;
  return x->key != y->key ? (x->key < y->key ? -1 : 1) : x->uid < y->uid ? -1 : x->uid > y->uid;
}

struct LM { List_ptr l; std::vector<Item*> s; bool gaps = false; };

static std::string showi(const std::vector<Item*>& s) { IV v; for (auto* p : s) v.push_back(p->uid); return show(v); }

static void full_check(Ctx& c, LM& m, const char* op, bool deep) {
  std::string k = std::string("List.") + op;
  int n = (int)m.s.size();
  CHECK(c, List_Num_Entries(m.l) == n, k + ".count", "after %s: %d entries, want %d", op, List_Num_Entries(m.l), n);
  std::vector<Item*> it;
  int i = 0; void* p; int guard = 0;
  while ((p = List_Next_Entry(m.l, &i))) { it.push_back((Item*)p); if (++guard > n + 10) break; }
  c.count("oracle_checks");
  if (it != m.s) {
    bool same = true;
    for (auto* q : it) if (!std::count(m.s.begin(), m.s.end(), q)) same = false;
    c.fail(k + ".iterate", "after %s: iteration gives %s want %s", op, same ? showi(it).c_str() : "(foreign entries)", showi(m.s).c_str());
    return;
  }
  if (deep) {
    for (int j = 0; j < n; j++) { void* e = List_Entry(m.l, j); c.count("oracle_checks"); if (e != m.s[j]) { c.fail(k + ".entry", "after %s: entry %d of %d is %s", op, j, n, e ? "another" : "null"); break; } }
  } else if (n) { int j = c.rng.below(n); CHECK(c, List_Entry(m.l, j) == m.s[j], k + ".entry", "after %s: entry %d of %d", op, j, n); }
  CHECK(c, !List_Entry(m.l, n) && !List_Entry(m.l, n + c.rng.below(100)) && !List_Entry(m.l, -1 - c.rng.below(3)), k + ".entry-range", "after %s: entry beyond the ends is not null", op);
}

static void list_case(Ctx& c, int nitem, int nops, bool big) {
  Rng& g = c.rng;
  std::vector<Item> items(nitem);
  int tie = g.chance(0.4) ? 2 : 1;
  for (int i = 0; i < nitem; i++) items[i] = {i / tie, i};
  std::vector<LM> L;
  int sizes[] = {0, 1, 2, 3, 7, 8, 10, 100};
  for (int i = 0; i < 3; i++) L.push_back({List_New(sizes[g.below(8)]), {}});
  std::map<std::string, int> ops;
  // the mixture of the history
  double wrem = g.real(0.5, 2.0), wcat = g.chance(0.3) ? 1.0 : 0.2, wsort = g.chance(0.4) ? 1.5 : 0.3;
  auto rnd = [&] { return &items[g.below(nitem)]; };
  auto at = [&](LM& m) -> Item* { return m.s.empty() ? nullptr : m.s[g.below((int)m.s.size())]; };
  for (int t = 0; t < nops && !c.failed(); t++) {
    LM& m = L[g.below(3)];
    int n = (int)m.s.size();
    double x = g.unit() * (4 + 4 * wrem + wcat + wsort + 4.5);
    const char* op = "";
    std::string before = n <= 40 ? showi(m.s) : "";
    if ((x -= 1.5) < 0) {
      op = "Add"; Item* e = rnd();
      CHECK(c, List_Add(m.l, e) == m.l, "List.Add.ret", "Add does not return the list");
      m.s.push_back(e);
    } else if ((x -= 1) < 0) {
      op = "ChknAdd"; Item* e = rnd();
      CHECK(c, List_ChknAdd(m.l, e) == m.l, "List.ChknAdd.ret", "ChknAdd does not return the list");
      if (!std::count(m.s.begin(), m.s.end(), e)) m.s.push_back(e);
    } else if ((x -= 0.7) < 0) {
      op = "Insert"; Item* e = rnd(); Item* b = g.chance(0.15) ? nullptr : g.chance(0.8) ? at(m) : rnd();
      List_ptr r = List_Insert(m.l, e, b);
      auto it = b ? std::find(m.s.begin(), m.s.end(), b) : m.s.end();
      if (!b || it != m.s.end()) m.s.insert(it, e);
      CHECK(c, r == m.l, "List.Insert.ret", "Insert does not return the list");
    } else if ((x -= 0.8) < 0) {
      op = "Inserti"; Item* e = rnd(); int i = g.chance(0.12) ? (g.chance(0.5) ? n + 1 + g.below(4) : -1 - g.below(2)) : g.below(n + 1);
      List_ptr r = List_Inserti(m.l, e, i);
      bool ok = i >= 0 && i <= n;
      CHECK(c, r == (ok ? m.l : nullptr), "List.Inserti.ret", "Inserti at %d of %d returns %s", i, n, r ? "the list" : "null");
      if (ok) m.s.insert(m.s.begin() + i, e);
    } else if ((x -= wrem) < 0) {
      op = "Rem"; Item* e = g.chance(0.8) ? at(m) : rnd(); if (!e) continue;
      int r = List_Rem(m.l, e);
      auto it = std::find(m.s.begin(), m.s.end(), e);
      CHECK(c, !!r == (it != m.s.end()), "List.Rem.ret", "Rem returns %d, entry %s", r, it != m.s.end() ? "present" : "absent");
      if (it != m.s.end()) { m.s.erase(it); m.gaps = true; }
    } else if ((x -= wrem) < 0) {
      op = "Remi"; int i = g.chance(0.12) ? (g.chance(0.5) ? n + g.below(4) : -1 - g.below(2)) : g.below(n);
      int r = List_Remi(m.l, i);
      bool ok = i >= 0 && i < n;
      CHECK(c, !!r == ok, "List.Remi.ret", "Remi %d of %d returns %d", i, n, r);
      if (ok) { m.s.erase(m.s.begin() + i); m.gaps = true; }
    } else if ((x -= wrem) < 0) {
      // remove while iterating: every entry is visited exactly once, in order
      op = "IterRem"; double p = g.real(0.1, 0.9);
      std::vector<Item*> seen, keep; int i = 0; void* e; int guard = 0;
      bool byval = g.chance(0.5);
      std::vector<Item*> rest = m.s;
      bool dup = std::set<Item*>(m.s.begin(), m.s.end()).size() != m.s.size();
      if (dup) { i = 0; continue; }
      while ((e = List_Next_Entry(m.l, &i))) {
        seen.push_back((Item*)e);
        if (++guard > n + 5) break;
        if (g.chance(p)) {
          int r;
          if (byval) r = List_Rem(m.l, e);
          else r = List_Remi(m.l, (int)keep.size());
          CHECK(c, r == 1, "List.IterRem.ret", "removal while iterating returns %d", r);
        } else keep.push_back((Item*)e);
      }
      c.count("oracle_checks");
      if (seen != m.s) c.fail("List.IterRem.visit", "visited %s of %s", showi(seen).c_str(), showi(m.s).c_str());
      m.s = keep; m.gaps = true;
    } else if ((x -= wrem) < 0) {
      op = "RemSorted"; 
      if (!std::is_sorted(m.s.begin(), m.s.end(), [](Item* a, Item* b) { return a->key < b->key; })) continue;
      Item* e = g.chance(0.75) ? at(m) : rnd(); if (!e) continue;
      int r = List_RemSorted(m.l, e, item_key);
      auto it = std::find(m.s.begin(), m.s.end(), e);
      CHECK(c, !!r == (it != m.s.end()), "List.RemSorted.ret", "RemSorted returns %d, entry %s, list %s", r, it != m.s.end() ? "present" : "absent", before.c_str());
      if (it != m.s.end()) { m.s.erase(it); m.gaps = true; }
      c.count("remsorted");
    } else if ((x -= 0.6) < 0) {
      op = "Replace"; Item* e = g.chance(0.8) ? at(m) : rnd(); if (!e) continue; Item* f = rnd();
      int r = List_Replace(m.l, e, f);
      auto it = std::find(m.s.begin(), m.s.end(), e);
      CHECK(c, !!r == (it != m.s.end()), "List.Replace.ret", "Replace returns %d, entry %s", r, it != m.s.end() ? "present" : "absent");
      if (it != m.s.end()) *it = f;
    } else if ((x -= 0.6) < 0) {
      op = "Replacei"; int i = g.chance(0.15) ? (g.chance(0.5) ? n + g.below(4) : -1 - g.below(2)) : g.below(n); Item* f = rnd();
      int r = List_Replacei(m.l, i, f);
      bool ok = i >= 0 && i < n;
      CHECK(c, !!r == ok, "List.Replacei.ret", "Replacei %d of %d returns %d", i, n, r);
      if (ok) m.s[i] = f;
    } else if ((x -= wcat) < 0) {
      op = "Cat"; LM& q = L[g.below(3)];
      if (n + q.s.size() > (big ? 40000u : 3000u)) continue;
      auto qs = q.s; bool qg = q.gaps;
      CHECK(c, List_Cat(m.l, q.l) == m.l, "List.Cat.ret", "Cat does not return the first list");
      m.s.insert(m.s.end(), qs.begin(), qs.end()); m.gaps |= qg;
      if (&q != &m) full_check(c, q, "Cat-source", false);
    } else if ((x -= 0.4) < 0) {
      op = "Copy"; List_ptr o = m.l; m.l = List_Copy(o);
      CHECK(c, m.l != o, "List.Copy.ret", "Copy returns the same list");
      LM old{o, m.s}; full_check(c, old, "Copy-source", false);
      // the copies are independent
      if (g.chance(0.5)) { List_Add(o, rnd()); if (n) List_Remi(o, g.below(n)); }
      List_Delete(o);
    } else if ((x -= 0.6) < 0) {
      op = "Compress"; CHECK(c, List_Compress(m.l) == m.l, "List.Compress.ret", "Compress does not return the list");
      m.gaps = false;
    } else if ((x -= wsort) < 0) {
      op = "Sort"; List_Compress(m.l); m.gaps = false;
      List_Sort(m.l, n, sizeof(void*), cmp_item);
      std::sort(m.s.begin(), m.s.end(), [](Item* a, Item* b) { return a->uid < b->uid; });
      std::stable_sort(m.s.begin(), m.s.end(), [](Item* a, Item* b) { return a->key < b->key; });
      for (int q = 0; q < 4; q++) {
        Item* k = rnd();
        void* r = List_Search(m.l, &k, n, sizeof(void*), cmp_item);
        CHECK(c, r == (std::count(m.s.begin(), m.s.end(), k) ? k : nullptr), "List.Search", "search in sorted list of %d", n);
      }
    } else {
      op = "Queries";
      Item* e = g.chance(0.6) ? at(m) : rnd(); if (!e) continue;
      auto it = std::find(m.s.begin(), m.s.end(), e);
      CHECK(c, !!List_Contains(m.l, e) == (it != m.s.end()), "List.Contains", "contains says %d", List_Contains(m.l, e));
      int loc = List_Locate(m.l, e), want = it == m.s.end() ? -1 : (int)(it - m.s.begin());
      CHECK(c, loc == want, "List.Locate", "locate says %d want %d", loc, want);
    }
    ops[op]++;
    c.mixs(op); c.mix(m.s.size());
    if (!big || t % 50 == 0) full_check(c, m, op, !big && g.chance(0.3));
    if (c.failed()) c.note("failed at op %d %s on %s", t, op, before.c_str());
  }
  for (auto& m : L) { full_check(c, m, "end", true); List_Delete(m.l); }
  std::string d;
  for (auto& o : ops) { d += " " + o.first + "=" + std::to_string(o.second); c.count(("op_" + o.first).c_str(), o.second); }
  c.note("%d items, %d ops:%s", nitem, nops, d.c_str());
  c.nontrivial = nops > 5;
}
CASE(C09, list_small, 5) { list_case(c, c.rng.range(2, 12), c.rng.range(10, 120), false); }
CASE(C09, list_medium, 3) { list_case(c, c.rng.range(10, 80), c.rng.range(100, 400), false); }
CASE(C09, list_big, 1) { list_case(c, c.rng.range(2000, 6000), c.rng.range(500, 3000), true); }
// drain and refill: every entry removed in some order by some operation
CASE(C09, list_drain, 2) {
  Rng& g = c.rng;
  int n = g.range(1, 200);
  std::vector<Item> items(n);
  LM m{List_New(g.below(20)), {}};
  for (int i = 0; i < n; i++) { items[i] = {i * 3, i}; List_Add(m.l, &items[i]); m.s.push_back(&items[i]); }
  int mode = g.below(5), rounds = 0;
  while (!m.s.empty() && !c.failed()) {
    int k = (int)m.s.size(), i = mode == 0 ? 0 : mode == 1 ? k - 1 : mode == 2 ? k / 2 : g.below(k);
    Item* e = m.s[i]; int r = 0, how = g.below(3);
    if (g.chance(0.1)) {      // absent keys, before, between and after the others
      Item a = {g.range(-2, 3 * n + 2), -1};
      CHECK(c, !List_RemSorted(m.l, &a, item_key), "List.RemSorted.absent", "entry that is not in the list reported as removed");
    }
    if (how == 0) r = List_RemSorted(m.l, e, item_key);
    else if (how == 1) r = List_Remi(m.l, i);
    else r = List_Rem(m.l, e);
    static const char* nm[] = {"RemSorted", "Remi", "Rem"};
    CHECK(c, r == 1, std::string("List.drain.") + nm[how], "removing entry %d of %d returns %d", i, k, r);
    m.s.erase(m.s.begin() + i);
    if (g.chance(0.03)) List_Compress(m.l);
    if (g.chance(0.2) || k < 5) full_check(c, m, "drain", k < 40);
    rounds++;
  }
  Item a = {1, -1};
  CHECK(c, !List_RemSorted(m.l, &a, item_key) && !List_Rem(m.l, &a) && !List_Remi(m.l, 0), "List.empty", "removal from an empty list succeeds");
  for (int i = 0; i < n; i++) if (g.chance(0.5)) { List_Add(m.l, &items[i]); m.s.push_back(&items[i]); }
  full_check(c, m, "refill", true);
  List_Compress(m.l); full_check(c, m, "Compress", true);
  List_Delete(m.l);
  c.note("drain %d entries mode %d", n, mode); c.mix(n); c.mix(mode); c.mix(g.s); c.nontrivial = n > 2;
}

// ------------------------------------------------------------------ mesh sets
struct SM { MSet_ptr s; std::vector<void*> e; std::string name; MType dim; };

static void check_set(Ctx& c, SM& m, const char* op, Mesh_ptr mesh) {
  std::string k = std::string("MSet.") + op;
  int n = (int)m.e.size();
  CHECK(c, MSet_Num_Entries(m.s) == n, k + ".count", "after %s: %d entries want %d", op, MSet_Num_Entries(m.s), n);
  std::vector<void*> got; int i = 0; void* p; int guard = 0;
  while ((p = MSet_Next_Entry(m.s, &i))) { got.push_back(p); if (++guard > n + 10) break; }
  CHECK(c, got == m.e, k + ".iterate", "after %s: iteration differs (%zu entries, want %d)", op, got.size(), n);
  for (int j = 0; j < n && j < 60; j++) CHECK(c, MSet_Entry(m.s, j) == m.e[j], k + ".entry", "after %s: entry %d of %d", op, j, n);
  CHECK(c, !MSet_Entry(m.s, n), k + ".entry-range", "entry %d of %d is not null", n, n);
  char nm[1000]; MSet_Name(m.s, nm);
  CHECK(c, m.name == nm, k + ".name", "name %s want %s", nm, m.name.c_str());
  CHECK(c, MSet_EntDim(m.s) == m.dim, k + ".dim", "dimension %d want %d", (int)MSet_EntDim(m.s), (int)m.dim);
  CHECK(c, MSet_Mesh(m.s) == mesh, k + ".mesh", "mesh");
}

static void check_setlist(Ctx& c, std::vector<SM>& S, Mesh_ptr mesh, const char* op) {
  std::string k = std::string("MSets.") + op;
  CHECK(c, MESH_Num_MSets(mesh) == (int)S.size(), k + ".num", "%d sets want %zu", MESH_Num_MSets(mesh), S.size());
  std::vector<void*> got; int i = 0; void* p;
  while ((p = MESH_Next_MSet(mesh, &i))) { got.push_back(p); if (got.size() > S.size() + 5) break; }
  bool ok = got.size() == S.size();
  for (size_t j = 0; ok && j < S.size(); j++) if (got[j] != S[j].s || MESH_MSet(mesh, (int)j) != S[j].s) ok = false;
  CHECK(c, ok, k + ".list", "sets of the mesh are not those created, in order");
}

CASE(C08, sets, 4) {
  Rng& g = c.rng;
  GenOpt o; o.size = 3;
  Model m = gen(g, o);
  RepType rep = g.chance(0.5) ? F1 : F4;
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  std::vector<void*> ents[4];
  { int i = 0; void* p; while ((p = MESH_Next_Vertex(w.m, &i))) ents[0].push_back(p);
    i = 0; while ((p = MESH_Next_Edge(w.m, &i))) ents[1].push_back(p);
    i = 0; while ((p = MESH_Next_Face(w.m, &i))) ents[2].push_back(p);
    i = 0; while ((p = MESH_Next_Region(w.m, &i))) ents[3].push_back(p); }
  for (auto& v : ents) if (v.size() > 30) v.resize(30);
  std::vector<SM> S;
  int nd = m.dim + 1, serial = 0;
  auto pool = [&](MType d) { if (d == MALLTYPE) return ents[g.below(nd)]; return ents[(int)d]; };
  auto newset = [&] {
    MType d = g.chance(0.15) ? MALLTYPE : (MType)g.below(nd);
    std::string nm = "set" + std::to_string(serial++);
    if (g.chance(0.2)) nm += std::string(g.below(80), 'x');
    SM s{MSet_New(w.m, nm.c_str(), d), {}, nm, d};
    S.push_back(s); check_set(c, S.back(), "New", w.m);
  };
  newset(); newset();
  int nops = g.range(10, 150);
  std::map<std::string, int> ops;
  for (int t = 0; t < nops && !c.failed(); t++) {
    if (S.empty() || (S.size() < 7 && g.chance(0.06))) { newset(); check_setlist(c, S, w.m, "New"); continue; }
    int si = g.below((int)S.size());
    SM& s = S[si];
    int n = (int)s.e.size();
    std::vector<void*> P = pool(s.dim);
    if (P.empty()) continue;
    auto rnd = [&] { return g.pick(P); };
    auto at = [&]() -> void* { return n ? g.pick(s.e) : g.pick(P); };
    const char* op = "";
    int x = g.below(24);
    if (x < 3) { op = "Add"; void* e = rnd(); if (g.chance(0.8) && std::count(s.e.begin(), s.e.end(), e)) continue; CHECK(c, MSet_Add(s.s, e) == s.s, "MSet.Add.ret", "Add does not return the set"); s.e.push_back(e); }
    else if (x < 6) { op = "ChknAdd"; void* e = rnd(); CHECK(c, MSet_ChknAdd(s.s, e) == s.s, "MSet.ChknAdd.ret", "ChknAdd does not return the set"); if (!std::count(s.e.begin(), s.e.end(), e)) s.e.push_back(e); }
    else if (x == 6) { op = "Insert"; void* e = rnd(); void* b = g.chance(0.8) ? at() : nullptr;
      auto it = b ? std::find(s.e.begin(), s.e.end(), b) : s.e.end();
      CHECK(c, MSet_Insert(s.s, e, b) == s.s, "MSet.Insert.ret", "Insert does not return the set");
      if (!b || it != s.e.end()) s.e.insert(it, e); }
    else if (x == 7) { op = "Inserti"; void* e = rnd(); int i = g.below(n + 2);
      MSet_ptr r = MSet_Inserti(s.s, e, i);
      CHECK(c, r == (i <= n ? s.s : nullptr), "MSet.Inserti.ret", "Inserti at %d of %d", i, n);
      if (i <= n) s.e.insert(s.e.begin() + i, e); }
    else if (x < 10) { op = "Rem"; void* e = g.chance(0.7) ? at() : rnd(); auto it = std::find(s.e.begin(), s.e.end(), e); int r = MSet_Rem(s.s, e);
      CHECK(c, !!r == (it != s.e.end()), "MSet.Rem.ret", "Rem returns %d", r); if (it != s.e.end()) s.e.erase(it); }
    else if (x == 10) { op = "Remi"; int i = g.below(n + 2); int r = MSet_Remi(s.s, i); CHECK(c, !!r == (i < n), "MSet.Remi.ret", "Remi %d of %d returns %d", i, n, r); if (i < n) s.e.erase(s.e.begin() + i); }
    else if (x == 11) { op = "Replace"; void* e = at(); void* f = rnd(); auto it = std::find(s.e.begin(), s.e.end(), e); int r = MSet_Replace(s.s, e, f); CHECK(c, !!r == (it != s.e.end()), "MSet.Replace.ret", "Replace returns %d", r); if (it != s.e.end()) *it = f; }
    else if (x == 12) { op = "Replacei"; if (!n) continue; int i = g.below(n); void* f = rnd(); int r = MSet_Replacei(s.s, i, f); CHECK(c, !!r, "MSet.Replacei.ret", "Replacei returns %d", r); s.e[i] = f; }
    else if (x == 13) { op = "Query"; void* e = g.chance(0.6) ? at() : rnd(); auto it = std::find(s.e.begin(), s.e.end(), e);
      CHECK(c, !!MSet_Contains(s.s, e) == (it != s.e.end()), "MSet.Contains", "contains");
      CHECK(c, MSet_Locate(s.s, e) == (it == s.e.end() ? -1 : (int)(it - s.e.begin())), "MSet.Locate", "locate"); }
    else if (x == 14) { op = "Copy"; if (S.size() > 9) continue; SM k = s; k.s = MSet_Copy(s.s); S.push_back(k); check_set(c, S.back(), "Copy", w.m); ops[op]++; check_set(c, S[si], "Copy-source", w.m); continue; }
    else if (x == 15) { op = "Cat"; SM& q = S[g.below((int)S.size())]; if (q.dim != s.dim || &q == &s || n + q.e.size() > 400) continue;
      CHECK(c, MSet_Cat(s.s, q.s) == s.s, "MSet.Cat.ret", "Cat does not return the first set"); s.e.insert(s.e.end(), q.e.begin(), q.e.end()); check_set(c, q, "Cat-source", w.m); }
    else if (x == 16) { op = "Rename"; std::string nm = std::string("renamed") + std::to_string(serial++) + std::string(g.below(100), 'n'); std::vector<char> b(nm.begin(), nm.end()); b.push_back(0); MSet_Rename(s.s, b.data()); s.name = nm; }
    else if (x == 17) { op = "Delete"; if (S.size() < 3) continue; MSet_Delete(s.s); S.erase(S.begin() + si); ops[op]++; check_setlist(c, S, w.m, op); continue; }
    else if (x == 18) { op = "ByName"; 
      CHECK(c, [&] { MSet_ptr f = MESH_MSetByName(w.m, s.name.c_str()); for (auto& q : S) if (q.s == f) return q.name == s.name; return false; }(), "MSet.ByName", "lookup of '%s'", s.name.c_str());
      std::string no = s.name + "?"; CHECK(c, !MESH_MSetByName(w.m, no.c_str()) && !MESH_MSetByName(w.m, ""), "MSet.ByName.absent", "lookup of a name no set has"); }
    else {
      static const char* nm[] = {"Union", "Intersect", "Subtract"};
      static const char* mid[] = {"_or_", "_and_", "_minus_"};
      int q = g.below(3); op = nm[q];
      if (S.size() > 9) continue;
      SM a = s, b = S[g.below((int)S.size())];
      if (a.name.size() + b.name.size() > 200) continue;
      MSet_ptr r = q == 0 ? MSets_Union(a.s, b.s) : q == 1 ? MSets_Intersect(a.s, b.s) : MSets_Subtract(a.s, b.s);
      std::set<void*> A(a.e.begin(), a.e.end()), B(b.e.begin(), b.e.end()), W;
      for (void* e : A) if (q == 0 || (q == 1) == (B.count(e) > 0)) W.insert(e);
      if (q == 0) W.insert(B.begin(), B.end());
      std::vector<void*> got; int i = 0; void* p;
      if (r) while ((p = MSet_Next_Entry(r, &i))) { got.push_back(p); if (got.size() > a.e.size() + b.e.size() + 10) break; }
      std::set<void*> G(got.begin(), got.end());
      CHECK(c, G == W, std::string("MSets.") + op + ".result", "%zu of %zu members, %zu expected (operands %zu, %zu)", G.size(), got.size(), W.size(), A.size(), B.size());
      bool nodup = A.size() == a.e.size() && B.size() == b.e.size();
      if (nodup) CHECK(c, got.size() == G.size(), std::string("MSets.") + op + ".dup", "result repeats members");
      if (q) CHECK(c, !r == W.empty(), std::string("MSets.") + op + ".empty", "empty result %s", r ? "is a set" : "is null");
      check_set(c, a, "operand1", w.m); check_set(c, b, "operand2", w.m);
      if (r) {
        std::string rn = "in_" + a.name + mid[q] + b.name;
        MType rd = q == 2 ? a.dim : a.dim == b.dim ? a.dim : MALLTYPE;
        char nmb[1000]; MSet_Name(r, nmb);
        CHECK(c, rn == nmb && MSet_EntDim(r) == rd, std::string("MSets.") + op + ".name", "result %s dimension %d", nmb, (int)MSet_EntDim(r));
        SM k{r, got, nmb, MSet_EntDim(r)};
        S.push_back(k);
        check_setlist(c, S, w.m, op);
      }
      ops[op]++; c.mixs(op); c.mix(G.size());
      continue;
    }
    ops[op]++; c.mixs(op); c.mix(s.e.size());
    check_set(c, s, op, w.m);
  }
  for (auto& s : S) check_set(c, s, "end", w.m);
  check_setlist(c, S, w.m, "end");
  verify(c, w, m, VF_COORDS);
  MESH_Delete(w.m);
  std::string d;
  for (auto& q : ops) { d += " " + q.first + "=" + std::to_string(q.second); c.count(("op_" + q.first).c_str(), q.second); }
  c.note("%s, %d operations, %zu sets at the end:%s", m.kind.c_str(), nops, S.size(), d.c_str());
  c.nontrivial = nops > 5;
}

// ------------------------------------------------------------------ attributes
struct AttM { MAttrib_ptr a; std::string name; MAttType type; MType dim; int nc; };
struct Val { int st = 0; int i = 0; double d = 0; void* p = nullptr; std::vector<double> v; };   // st 1 set, 2 cleared

CASE(C07, attributes, 4) {
  Rng& g = c.rng;
  GenOpt o; o.size = 3;
  static const RepType reps[] = {F1, F4, F1, R1, R2, R4};
  RepType rep = reps[g.below(6)];
  bool full = rep == F1 || rep == F4;
  if (rep == R1 || rep == R2) o.standard_only = true;
  Model m = gen(g, o);
  MView w = build(g, m, rep, rand_build(g, rep, m.dim));
  std::vector<void*> ents[4];
  { int i = 0; void* p; while ((p = MESH_Next_Vertex(w.m, &i))) ents[0].push_back(p);
    if (full) { i = 0; while ((p = MESH_Next_Edge(w.m, &i))) ents[1].push_back(p); }
    i = 0; while ((p = MESH_Next_Face(w.m, &i))) ents[2].push_back(p);
    i = 0; while ((p = MESH_Next_Region(w.m, &i))) ents[3].push_back(p); }
  // every fourth or so entity is in play, so that histories collide
  std::vector<void*> play[4], all; std::map<void*, int> dim;
  for (int d = 0; d < 4; d++) { for (void* p : ents[d]) dim[p] = d; for (int k = 0; k < 6 && !ents[d].empty(); k++) play[d].push_back(g.pick(ents[d])); all.insert(all.end(), ents[d].begin(), ents[d].end()); }
  std::vector<AttM> A; std::map<std::pair<void*, void*>, Val> V;
  int serial = 0, token[64];
  std::map<std::string, int> ops;
  auto newatt = [&] {
    static const MAttType T[] = {INT, DOUBLE, POINTER, VECTOR, TENSOR};
    MAttType t = T[g.below(5)];
    std::vector<int> ds; for (int d = 0; d < 4; d++) if (!ents[d].empty()) ds.push_back(d);
    MType d = g.chance(0.2) ? MALLTYPE : (MType)g.pick(ds);
    int nc = t == VECTOR ? g.range(1, 6) : t == TENSOR ? g.pick(std::vector<int>{3, 6, 9, 21}) : 1;
    AttM a{nullptr, att_name(g, w.m, "att" + std::to_string(serial++) + std::string(g.below(30), 'z')), t, d, nc};
    if (t == VECTOR || t == TENSOR) a.a = MAttrib_New(w.m, a.name.c_str(), t, d, nc);
    else a.a = MAttrib_New(w.m, a.name.c_str(), t, d);
    A.push_back(a);
    return A.size() - 1;
  };
  auto pickent = [&](const AttM& a) -> void* {
    int d = a.dim == MALLTYPE ? -1 : (int)a.dim;
    for (int t = 0; t < 20; t++) { int q = d < 0 ? g.below(4) : d; if (!play[q].empty()) { void* e = g.pick(play[q]); if (dim.count(e)) return e; } }
    return nullptr;
  };
  auto rd = [&](void* e, const AttM& a, const char* op) {
    Val z; auto it = V.find({e, a.a}); if (it != V.end()) z = it->second;
    std::string k = std::string("Att.") + op + ".d" + std::to_string(dim[e]) + ".t" + std::to_string((int)a.type);
    int iv = -77; double dv = -77; void* pv = &iv;
    int r = MEnt_Get_AttVal(e, a.a, &iv, &dv, &pv);
    c.count("oracle_checks"); c.count("reads");
    CHECK(c, !!r == (z.st != 0), k + ".status", "status %d, value %s", r, z.st ? "was set" : "was never set");
    if (!z.st) { CHECK(c, iv == 0 && dv == 0 && pv == nullptr, k + ".null", "unset value reads %d %g %p", iv, dv, pv); }
    switch (a.type) {
      case INT: CHECK(c, iv == z.i && MEnt_Get_IntAttVal(e, a.a) == z.i, k, "reads %d want %d", iv, z.i); break;
      case DOUBLE: CHECK(c, dv == z.d && MEnt_Get_DblAttVal(e, a.a) == z.d, k, "reads %g want %g", dv, z.d); break;
      case POINTER: CHECK(c, pv == z.p && MEnt_Get_PtrAttVal(e, a.a) == z.p, k, "reads %p want %p", pv, z.p); break;
      default: {
        double* q = a.type == VECTOR ? MEnt_Get_VecAttVal(e, a.a) : MEnt_Get_TnsrAttVal(e, a.a);
        CHECK(c, q == pv, k + ".typed", "typed and general read differ");
        if (z.st == 1) { CHECK(c, q && std::equal(z.v.begin(), z.v.end(), q), k, "vector value differs"); }
        else if (z.st == 2) { bool zero = true; if (q) for (int j = 0; j < a.nc; j++) zero &= q[j] == 0; CHECK(c, zero, k + ".cleared", "cleared vector still has a value"); }
      }
    }
  };
  auto readall = [&](const char* op) { for (auto& a : A) for (void* e : all) if (dim.count(e) && (a.dim == MALLTYPE || (int)a.dim == dim[e])) rd(e, a, op); };
  auto lists = [&](const char* op) {
    std::string k = std::string("Atts.") + op;
    CHECK(c, MESH_Num_Attribs(w.m) == (int)A.size(), k + ".num", "%d attributes want %zu", MESH_Num_Attribs(w.m), A.size());
    int i = 0; MAttrib_ptr p; std::vector<void*> got; while ((p = MESH_Next_Attrib(w.m, &i))) { got.push_back(p); if (got.size() > A.size() + 3) break; }
    bool ok = got.size() == A.size();
    for (size_t j = 0; ok && j < A.size(); j++) ok = got[j] == A[j].a && MESH_Attrib(w.m, (int)j) == A[j].a && MESH_AttribByName(w.m, A[j].name.c_str()) == A[j].a;
    CHECK(c, ok, k + ".list", "attributes of the mesh are not those defined");
    CHECK(c, !MESH_AttribByName(w.m, "no such attribute"), k + ".absent", "unknown name found");
    for (auto& a : A) { char nm[600]; MAttrib_Get_Name(a.a, nm);
      CHECK(c, a.name == nm && MAttrib_Get_Type(a.a) == a.type && MAttrib_Get_EntDim(a.a) == a.dim && MAttrib_Get_NumComps(a.a) == a.nc, k + ".def", "definition of %s reads %s type %d dim %d comps %d", a.name.c_str(), nm, (int)MAttrib_Get_Type(a.a), (int)MAttrib_Get_EntDim(a.a), MAttrib_Get_NumComps(a.a)); }
  };
  newatt(); newatt();
  int nops = g.range(20, 250);
  for (int t = 0; t < nops && !c.failed(); t++) {
    if (A.empty() || (A.size() < 8 && g.chance(0.05))) { newatt(); ops["New"]++; lists("New"); continue; }
    size_t ai = g.below((int)A.size()); AttM& a = A[ai];
    void* e = pickent(a); if (!e) continue;
    int x = g.below(40);
    const char* op;
    if (x < 20) {
      op = "Set"; Val z; z.st = 1;
      bool typed = g.chance(0.5);
      switch (a.type) {
        case INT: z.i = g.chance(0.1) ? (g.chance(0.5) ? INT32_MIN : INT32_MAX) : g.range(-1000, 1000); if (typed) MEnt_Set_IntAttVal(e, a.a, z.i); else MEnt_Set_AttVal(e, a.a, z.i, 0.5, nullptr); break;
        case DOUBLE: z.d = g.chance(0.05) ? 0.0 : g.real(-1e3, 1e3); if (typed) MEnt_Set_DblAttVal(e, a.a, z.d); else MEnt_Set_AttVal(e, a.a, 7, z.d, nullptr); break;
        case POINTER: z.p = &token[g.below(64)]; if (typed) MEnt_Set_PtrAttVal(e, a.a, z.p); else MEnt_Set_AttVal(e, a.a, 3, 4.0, z.p); break;
        default: {
          for (int j = 0; j < a.nc; j++) z.v.push_back(g.real(-10, 10));
          std::vector<double> src = z.v;     // the caller's buffer does not stay alive or unchanged
          if (g.chance(0.15)) { double* own = a.type == VECTOR ? MEnt_Get_VecAttVal(e, a.a) : MEnt_Get_TnsrAttVal(e, a.a); Val cur; auto it = V.find({e, a.a}); if (it != V.end()) cur = it->second; if (own && cur.st == 1) { MEnt_Set_AttVal(e, a.a, 0, 0, own); z.v = cur.v; break; } }
          if (!typed) MEnt_Set_AttVal(e, a.a, 0, 0, src.data());
          else if (a.type == VECTOR) MEnt_Set_VecAttVal(e, a.a, src.data());
          else MEnt_Set_TnsrAttVal(e, a.a, src.data());
          for (auto& q : src) q = -999;
        }
      }
      V[{e, a.a}] = z;
    } else if (x < 30) { op = "Get"; }
    else if (x < 32) { op = "Rem"; MEnt_Rem_AttVal(e, a.a); V.erase({e, a.a}); }
    else if (x < 34) { op = "Clear"; MEnt_Clear_AttVal(e, a.a); auto it = V.find({e, a.a}); if (it != V.end()) { it->second = Val(); it->second.st = 2; } }
    else if (x == 34) { op = "ClearAll"; MAttrib_Clear(a.a); for (auto& q : V) if (q.first.second == a.a) { q.second = Val(); q.second.st = 2; } }
    else if (x == 35) { op = "RemAll"; MEnt_Rem_AllAttVals(e); for (auto it = V.begin(); it != V.end();) if (it->first.first == e) it = V.erase(it); else ++it; for (auto& b : A) if (b.dim == MALLTYPE || (int)b.dim == dim[e]) rd(e, b, op); ops[op]++; continue; }
    else if (x == 36 && A.size() > 1 && g.chance(0.5)) {
      op = "Delete"; void* gone = a.a; MAttrib_Delete(a.a);
      for (auto it = V.begin(); it != V.end();) if (it->first.second == gone) it = V.erase(it); else ++it;
      A.erase(A.begin() + ai); lists(op); readall(op); ops[op]++;
      if (g.chance(0.5)) { newatt(); readall("New-after-Delete"); }
      continue;
    } else if (x == 37 && full && g.chance(0.4)) {     // delete a top level element
      op = "DelEnt"; int D = m.dim; std::vector<void*> top; for (void* p : ents[D]) if (dim.count(p)) top.push_back(p);
      if (top.size() < 2) continue;
      void* p = g.pick(top);
      MEnt_Delete(p, 0);
      dim.erase(p); for (auto it = V.begin(); it != V.end();) if (it->first.first == p) it = V.erase(it); else ++it;
      readall(op); ops[op]++; continue;
    } else continue;
    ops[op]++; c.mixs(op);
    rd(e, a, op);
    // some other entity and attribute is unaffected
    const AttM& b = g.pick(A); void* f = pickent(b); if (f) rd(f, b, "other");
  }
  readall("end"); lists("end");
  MESH_Delete(w.m);
  std::string d;
  for (auto& q : ops) { d += " " + q.first + "=" + std::to_string(q.second); c.count(("op_" + q.first).c_str(), q.second); }
  c.note("%s %s, %d operations:%s", m.kind.c_str(), rep_name(rep), nops, d.c_str());
  c.nontrivial = nops > 5;
}
