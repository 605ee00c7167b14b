// Interposed library calls of a runner: reports of the library are counted, storage it allocates can be tracked.
#pragma once
#include "vf.h"
#include "MSTK.h"
#include "mark.h"
long g_reports[4];
std::string g_lastreport;
extern "C" {
void __real_MSTK_Report(const char*, const char*, ErrType);
void __wrap_MSTK_Report(const char* f, const char* m, ErrType t) {
  if ((int)t >= 0 && (int)t < 4) __sync_fetch_and_add(&g_reports[(int)t], 1);
  if (t == MSTK_FATAL) fprintf(stderr, "VERIF-FATAL %s: %s\n", f, m);
  __real_MSTK_Report(f, m, t);
}
}

// reduced representations make faces and edges on demand which nothing in this build keeps: what they leave is not looked at
std::atomic<bool> g_reduced(false);
extern "C" {
void __real_MESH_Delete(Mesh_ptr);
void __wrap_MESH_Delete(Mesh_ptr m) { mk_clean(m, "MESH_Delete"); RepType r = MESH_RepType(m); if (r == R1 || r == R2 || r == R4) g_reduced = true; __real_MESH_Delete(m); }
}

// ---- what the library allocates and does not release (calls from the library's own objects are wrapped)
struct Blk { void* pc[6]; size_t n; };
static bool g_track = false;
static std::unordered_map<void*, Blk>* g_blk = nullptr;
static inline __attribute__((always_inline)) void note_alloc(void* p, size_t n) {
  if (!g_track || !p) return;
  Blk b{}; b.n = n;
  void** fp = (void**)__builtin_frame_address(0);
  for (int i = 0; i < 6; i++) {          // the frame is the wrapper's: its return address is in the allocating function
    void** up = (void**)fp[0]; void* pc = fp[1];
    b.pc[i] = pc;
    if (up <= fp || (char*)up - (char*)fp > 1000000) break;
    fp = up;
  }
  (*g_blk)[p] = b;
}
static inline void note_free(void* p) { if (g_track && p) g_blk->erase(p); }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); char* __real_strdup(const char*);
__attribute__((noinline)) void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); note_alloc(p, n); return p; }
__attribute__((noinline)) void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); note_alloc(p, a * b); return p; }
__attribute__((noinline)) void* __wrap_realloc(void* o, size_t n) { note_free(o); void* p = __real_realloc(o, n); note_alloc(p, n); return p; }
__attribute__((noinline)) void __wrap_free(void* p) { note_free(p); __real_free(p); }
__attribute__((noinline)) char* __wrap_strdup(const char* s) { char* p = __real_strdup(s); note_alloc(p, strlen(s) + 1); return p; }
}

// L records: allocation sites of what is left
inline std::string left_allocated() {
  g_track = false;
  std::string o; bool skip = g_reduced; g_reduced = false; if (skip) return o;
  std::map<std::string, std::pair<long, long>> agg;
  for (auto& kv : *g_blk) {
    std::string k;
    for (void* pc : kv.second.pc) if (pc) { char q[32]; snprintf(q, sizeof q, "%p ", (void*)((char*)pc - 1)); k += q; }
    agg[k].first++; agg[k].second += (long)kv.second.n;
  }
  for (auto& a : agg) o += "L\t" + a.first + "\t" + std::to_string(a.second.first) + "\t" + std::to_string(a.second.second) + "\n";
  return o;
}
