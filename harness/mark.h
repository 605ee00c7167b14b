// Marker build (property C28): markers held by the case while the library works, marks watched around its operations.
#pragma once
#include "vf.h"
#include "MSTK.h"
#include "MSTK_private.h"
Ctx* g_mctx = nullptr;            // the running case, if markers are watched
#ifdef MSTK_USE_MARKERS
static std::vector<int> g_held; std::set<int> g_known /* in use by the case itself */; static Rng g_mrng(1); static int g_mdepth = 0;
static std::vector<MEntity_ptr> mk_ents(Mesh_ptr m) {
  std::vector<MEntity_ptr> o; void* p; int i; RepType r = MESH_RepType(m); bool full = r == F1 || r == F4;
  i = 0; while ((p = MESH_Next_Vertex(m, &i))) o.push_back((MEntity_ptr)p);
  if (full) { i = 0; while ((p = MESH_Next_Edge(m, &i))) o.push_back((MEntity_ptr)p); }
  if (full || MESH_Num_Regions(m) == 0) { i = 0; while ((p = MESH_Next_Face(m, &i))) o.push_back((MEntity_ptr)p); }
  i = 0; while ((p = MESH_Next_Region(m, &i))) o.push_back((MEntity_ptr)p);
  return o;
}
// (operations called by other watched operations are not looked at: markers may be in use there)
// no entity carries a mark of a marker nobody holds
static void mk_clean(Mesh_ptr m, const char* where) {
  if (!g_mctx || !m) return;
  std::vector<bool> h(33); for (int k : g_held) h[k] = true;
  for (int k : g_known) h[k] = true;
  long bad = 0; int which = 0, dim = 0; auto E = mk_ents(m);
  for (auto e : E) for (int k = 1; k <= 32; k++) if (!h[k] && MEnt_IsMarked(e, k)) { bad++; which = k; dim = MEnt_Dim(e); }
  g_mctx->count("mark_checks", (long)E.size());
  if (bad) g_mctx->fail(std::string("mark.left.") + where, "%ld marks of markers not in use left (marker %d, dimension %d)", bad, which, dim);
}
struct MkGuard {
  Mesh_ptr m; const char* where; std::vector<std::pair<MEntity_ptr, unsigned>> want;
  MkGuard(Mesh_ptr m_, const char* w) : m(m_), where(w) {
    if (g_mdepth++ || !g_mctx || !m) { m = nullptr; return; }
    for (auto e : mk_ents(m)) { unsigned b = 0; for (int k : g_held) { if (g_mrng.chance(0.4)) { MEnt_Mark(e, k); b |= 1u << (k - 1); } else MEnt_Unmark(e, k); } want.push_back({e, b}); }
  }
  ~MkGuard() {
    g_mdepth--; if (!m) return;
    long bad = 0; int was = 0, k0 = 0;
    for (auto& q : want) for (int k : g_held) { int b = (q.second >> (k - 1)) & 1; if ((MEnt_IsMarked(q.first, k) != 0) != b) { bad++; was = b; k0 = k; } }
    g_mctx->count("marks_kept_checks", (long)want.size() * (long)g_held.size());
    if (bad) g_mctx->fail(std::string("mark.disturbed.") + where, "%ld marks changed during %s (marker %d, %s before)", bad, where, k0, was ? "set" : "not set");
    mk_clean(m, where);
  }
};
static void mk_begin(Ctx* c) {
  g_mctx = c; g_mrng = Rng(c->index * 77 + 5); g_held.clear(); g_known.clear(); g_mdepth = 0;
  std::vector<int> all; int n = g_mrng.range(0, 6); for (int i = 0; i < n; i++) all.push_back(MSTK_GetMarker());
  for (int k : all) if (g_mrng.chance(0.4)) MSTK_FreeMarker(k); else g_held.push_back(k);
  c->count("markers_held", (long)g_held.size());
}
static void mk_end() {
  Ctx* c = g_mctx; if (!c) return;
  for (int k : g_held) MSTK_FreeMarker(k);
  int k = MSTK_GetMarker(); if (k != 1) c->fail("mark.not-freed", "a marker obtained at the end is number %d: others are still in use", k);
  MSTK_FreeMarker(k); g_mctx = nullptr;
}
#define MKWRAP(ret, fn, params, args, mesh) extern "C" { ret __real_##fn params; ret __wrap_##fn params { MkGuard gd(mesh, #fn); return __real_##fn args; } }
MKWRAP(int, MESH_ExportToFile, (Mesh_ptr m, const char* f, const char* t, const int n, const char** a, const int* o, MSTK_Comm c), (m, f, t, n, a, o, c), m)
MKWRAP(int, MESH_ExportToGMV, (Mesh_ptr m, const char* f, const int n, const char** a, const int* o, MSTK_Comm c), (m, f, n, a, o, c), m)
MKWRAP(int, MESH_ExportToFLAGX3D, (Mesh_ptr m, const char* f, const int n, const char** a, const int* o, MSTK_Comm c), (m, f, n, a, o, c), m)
MKWRAP(int, MESH_ExportToExodusII, (Mesh_ptr m, const char* f, const int n, const char** a, const int* o, MSTK_Comm c), (m, f, n, a, o, c), m)
MKWRAP(int, MESH_WriteToFile, (Mesh_ptr m, const char* f, RepType r, MSTK_Comm c), (m, f, r, c), m)
MKWRAP(int, MESH_BuildClassfn, (Mesh_ptr m, int g), (m, g), m)
MKWRAP(int, MESH_CheckTopo, (Mesh_ptr m), (m), m)
MKWRAP(int, MESH_Copy, (Mesh_ptr m, Mesh_ptr d, int a, int s), (m, d, a, s), m)
MKWRAP(void, MESH_Renumber, (Mesh_ptr m, int t, MType y), (m, t, y), m)
MKWRAP(MSet_ptr, MSets_Union, (MSet_ptr a, MSet_ptr b), (a, b), MSet_Mesh(a))
MKWRAP(MSet_ptr, MSets_Intersect, (MSet_ptr a, MSet_ptr b), (a, b), MSet_Mesh(a))
MKWRAP(MSet_ptr, MSets_Subtract, (MSet_ptr a, MSet_ptr b), (a, b), MSet_Mesh(a))
MKWRAP(int, MESH_UpdateAttributes, (Mesh_ptr m, MSTK_Comm c), (m, c), m)
MKWRAP(int, MESH_Update1Attribute, (Mesh_ptr m, MAttrib_ptr a, MSTK_Comm c), (m, a, c), m)
MKWRAP(int, MESH_XchngEdgeFaceAttrib, (Mesh_ptr m, MAttrib_ptr a, MSTK_Comm c), (m, a, c), m)
#else
static inline void mk_begin(Ctx*) {}
static inline void mk_end() {}
static inline void mk_clean(Mesh_ptr, const char*) {}
#endif
