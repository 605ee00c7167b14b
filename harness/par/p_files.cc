// Distributed meshes written to files and read again, and files read in parallel: P09
#include "ops.h"
#include <sys/stat.h>

static Model file_model(Rng& g, int size = 0, bool flat = false) {
  GenOpt o; o.size = size; o.manifold = true; o.connected = g.chance(0.8); o.planar = g.chance(0.5); Model m = flat ? gen2(g, o) : gen(g, o); m.xe.clear();
  std::set<V3> s; for (auto& x : m.x) while (!s.insert(x).second) x[0] += 1e-3 * (1 + g.unit());
  return m;
}
static int elem_components(const Model& m) {
  Topo t = topo(m); int n = m.dim == 2 ? (int)m.f.size() : (int)m.r.size(); IV c(n); for (int i = 0; i < n; i++) c[i] = i; std::function<int(int)> find = [&](int i) { return c[i] == i ? i : c[i] = find(c[i]); };
  std::map<int, int> of; for (int i = 0; i < n; i++) { IV sd; if (m.dim == 2) sd = t.fe[i]; else for (auto& q : t.rf[i]) sd.push_back(q.first); for (int s : sd) { auto q = of.emplace(s, i); if (!q.second) c[find(i)] = find(q.first->second); } }
  std::set<int> r; for (int i = 0; i < n; i++) r.insert(find(i)); return (int)r.size();
}
static int n_elem(const Model& m) { return m.dim == 2 ? (int)m.f.size() : (int)m.r.size(); }
// element blocks by kind of element or mixed; the same numbers on every rank
static void set_blocks(Rng& g, Mesh_ptr w, int D) {
  int ng = g.range(1, 3); bool bytype = g.chance(0.6);
  for (int d = 0; d <= D; d++) for (void* p : ents(w, d)) { MEnt_Set_GEntDim(p, d == D ? D : g.range(d, D)); MEnt_Set_GEntID(p, g.range(1, ng + (d == D ? 0 : 3))); }
  if (bytype) for (void* p : ents(w, D)) { int n = D == 3 ? (int)MR_ElementType(p) : MF_Num_Vertices(p); MEnt_Set_GEntID(p, 10 * n + g.below(2)); }
}
static void add_file_sets(Rng& g, Mesh_ptr w, int D) {
  PV side; for (void* p : ents(w, D - 1)) { List_ptr l = D == 3 ? MF_Regions(p) : ME_Faces(p); int n = l ? List_Num_Entries(l) : 0; if (l) List_Delete(l); if (n == 1) side.push_back(p); }
  auto sets = [&](const char* pre, MType dim, const PV& from, int n) { for (int i = 0; i < n; i++) { std::string nm = pre + std::to_string(i * 7 + g.range(1, 6)); MSet_ptr s = MSet_New(w, nm.c_str(), dim); double q = g.unit(); for (void* p : from) if (g.chance(q)) MSet_Add(s, p); } };
  sets("nodeset_", MVERTEX, ents(w, 0), g.below(3)); sets("sideset_", D == 3 ? MFACE : MEDGE, side, g.below(3)); sets("elemset_", (MType)D, ents(w, D), g.below(3));
}

// the sets on all ranks together against those of the whole mesh: rank 0 has the whole
struct NamedSet { std::string name; int dim; std::vector<IV> m; };       // members by sorted vertex positions in the whole dump
static IV key_of(const std::map<V3, int>& vx, void* p) {
  int d = MEnt_Dim(p); PV v = d == 0 ? PV{p} : d == 1 ? PV{ME_Vertex(p, 0), ME_Vertex(p, 1)} : d == 2 ? take(MF_Vertices(p, 1, 0)) : take(MR_Vertices(p)); IV o;
  for (void* q : v) { double x[3]; MV_Coords(q, x); auto it = vx.find(V3{x[0], x[1], x[2]}); o.push_back(it == vx.end() ? -1 : it->second); }
  std::sort(o.begin(), o.end()); return o;
}

CASE(P09, exodus_parallel, 3) {
  Rng& g = c.rng; std::string k = "exodus"; int np = g.range(2, par_world()); Model m = file_model(g); int n = n_elem(m); if (np > n) np = n;
  Par p = par_comm(c, np); np = p.np; int ring = g.chance(0.15) ? 0 : g.chance(0.8) ? 1 : 2, ring2 = g.chance(0.2) ? 0 : 1, renum = g.chance(0.2), ext = g.below(2), iext = g.below(2), natt = g.below(4); bool weave = g.chance(0.85);
  uint64_t ds = g.next(), bs = g.next(); int mode; par_delays(ds, g.below(5)); IV parts = rand_parts(g, m, np, mode); RepType rep = g.chance(0.8) ? F1 : F4; BuildOpt bo = rand_build(g, rep, m.dim); int opts1 = g.below(2);
  c.note("%s %s, %d elements on %d ranks, %d ghost layer(s), written as .%s, read with %d layer(s)%s%s, %d attributes", m.kind.c_str(), rep_name(rep), n, np, ring, ext ? "exo" : "par", ring2, renum ? ", renumbered" : "", weave ? "" : ", not woven", natt);
  if (p.in() && np > 1) {
    Dump D; Mesh_ptr whole = nullptr, my = nullptr, back = nullptr; int dim = m.dim; std::vector<std::string> an, sn; std::map<V3, int> vx; std::vector<NamedSet> S; std::vector<std::vector<double>> av;
    if (p.root()) {
      Rng b(bs); MView w = build(b, m, rep, bo); whole = w.m; Ctx q; q.rng = Rng(bs + 1); set_blocks(q.rng, whole, dim); add_file_sets(q.rng, whole, dim);
      std::vector<MType> dims = {MVERTEX, (MType)dim}; add_attributes(q, whole, natt, false, dims, "f", 1e6);
      D = dump_mesh(whole, false); for (size_t i = 0; i < D.x.size(); i++) vx[D.x[i]] = (int)i;
      int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(whole, &i))) { char s[300]; MAttrib_Get_Name(a, s); an.push_back(s); }
      i = 0; MSet_ptr s; while ((s = MESH_Next_MSet(whole, &i))) { char t[300]; MSet_Name(s, t); sn.push_back(t); NamedSet N; N.name = t; N.dim = MSet_EntDim(s); int j = 0; void* e; while ((e = MSet_Next_Entry(s, &j))) N.m.push_back(key_of(vx, e)); std::sort(N.m.begin(), N.m.end()); S.push_back(N); }
    }
    std::string dir = "d" + std::to_string(c.index); if (p.root() && mkdir(dir.c_str(), 0755)) {} PMPI_Barrier(p.own);
    IV own; std::vector<std::vector<double>> wa[2];
    if (p.root()) for (int e = 0; e < 2; e++) { PV es = ents(whole, e ? dim : 0); for (auto& nm : an) { MAttrib_ptr a = MESH_AttribByName(whole, nm.c_str()); std::vector<double> v; MType ed = MAttrib_Get_EntDim(a); int nc = MAttrib_Get_NumComps(a), t = MAttrib_Get_Type(a); if ((int)ed == (e ? dim : 0) && t != INT) for (void* q : es) { int iv; double dv = 0; void* pv = nullptr; MEnt_Get_AttVal(q, a, &iv, &dv, &pv); for (int z = 0; z < nc; z++) v.push_back(t == DOUBLE ? dv : pv ? ((double*)pv)[z] : 0); } wa[e].push_back(v); } }
    int dd = p.root() ? dim : 0; g_parts = &parts; MSTK_Mesh_Distribute(whole, &my, &dd, ring, 1, 0, 0, p.comm); g_parts = nullptr;
    if (whole) MESH_Delete(whole);
    std::vector<Part> ps = collect(p, my, dim); Whole* W = nullptr; Ident id0; std::vector<int> gidw[4];
    if (p.root()) { W = new Whole(D, dim); own.assign(W->n(dim), -1); Ctx mute; IdOpt io; io.cls = false; for (int d = 0; d < 4; d++) gidw[d].assign(d <= dim ? W->n(d) : 0, 0);
      for (int r = 0; r < np; r++) { Ident I = identify(mute, "", *W, ps[r], r, io); for (int d = 0; d <= dim; d++) for (size_t i = 0; i < ps[r].e[d].size(); i++) if (I.at[d][i] >= 0) { if (ps[r].e[d][i].pt != PGHOST) { gidw[d][I.at[d][i]] = ps[r].e[d][i].gid; if (d == dim) own[I.at[d][i]] = r; } } } }
    std::string fn = dir + "/m." + (ext ? "exo" : "par"); int eo[3] = {0, 0, opts1};
    int ok = MESH_ExportToExodusII(my, fn.c_str(), 0, nullptr, g_parts ? nullptr : eo, p.comm); CHECK(c, ok == 1, k + ".write", "rank %d: writing returned %d", p.rank, ok);
    std::vector<Part> ps2 = collect(p, my, dim); if (p.root()) for (int r = 0; r < np; r++) for (int d = 0; d <= dim; d++) { bool same = ps2[r].e[d].size() == ps[r].e[d].size(); for (size_t i = 0; same && i < ps[r].e[d].size(); i++) same = ps2[r].e[d][i].gid == ps[r].e[d][i].gid && ps2[r].e[d][i].id == ps[r].e[d][i].id && ps2[r].e[d][i].c == ps[r].e[d][i].c && ps2[r].e[d][i].pt == ps[r].e[d][i].pt; CHECK(c, same, k + ".write-changed", "rank %d: writing changed the mesh in dimension %d", r, d); }
    MESH_Delete(my); PMPI_Barrier(p.own);
    back = MESH_New(F1); int po[5] = {weave, ring2, renum, 0, 0}; std::string fi = dir + "/m." + (ext ? "exo" : iext ? "exo" : "par");
    ok = MESH_ImportFromNemesisI(back, fi.c_str(), po, p.comm); CHECK(c, ok == 1, k + ".read", "rank %d: reading returned %d", p.rank, ok);
    std::vector<Part> q = collect(p, back, dim);
    // sets and attributes of every rank, by vertex coordinates
    std::vector<double> sv; an = bcast_names(p, an); sn = bcast_names(p, sn);
    if (p.root()) {
      IdOpt io; io.edgedir = io.facedir = io.cls = false;
      if (weave) { judge(c, k, "P01", *W, q, ring2, &own, io); if (!c.failed()) judge(c, k, "P03", *W, q, ring2, &own, io); if (!c.failed()) judge(c, k, "P02", *W, q, ring2, &own, io); }
      for (int r = 0; r < np && !c.failed(); r++) { Ident I = identify(c, k, *W, q[r], r, io); std::set<int> have;
        for (int d = 0; d <= dim; d++) for (size_t i = 0; i < q[r].e[d].size(); i++) { int w = I.at[d][i]; const PEnt& e = q[r].e[d][i]; if (w < 0) continue;
          if (d == dim) { CHECK(c, e.gg == W->c(d)[w].second, k + ".block", "rank %d element %d is in block %d, should be in %d", r, w, e.gg, W->c(d)[w].second); if (own[w] == r) have.insert(w); }
          if (!renum && weave && (d == 0 || d == dim)) CHECK(c, e.gid == gidw[d][w], k + (d ? ".element-gid" : ".vertex-gid"), "rank %d %s %d has global ID %d, was written with %d", r, d ? "element" : "vertex", w, e.gid, gidw[d][w]); }
        for (int w = 0; w < W->n(dim); w++) if (own[w] == r) CHECK(c, have.count(w), k + ".element-lost", "rank %d lacks element %d it wrote", r, w);
        if (!weave) CHECK(c, have.size() == q[r].e[dim].size(), k + ".element-extra", "rank %d has %zu elements, wrote %zu", r, q[r].e[dim].size(), have.size()); }
    }
    // sets
    std::vector<double> mine; { std::unordered_map<void*, std::pair<int,int>> at; for (int d = 0; d <= dim; d++) { PV es = ents(back, d); for (size_t i = 0; i < es.size(); i++) at[es[i]] = {d, (int)i}; } mine = pack_sets(back, dim, sn); }
    auto G = par_gather(p, mine);
    if (p.root() && !c.failed()) { IdOpt io; io.edgedir = io.facedir = io.cls = false; Ctx mute; std::vector<std::set<int>> got(sn.size()), want(sn.size()); std::vector<size_t> pos(np, 0);
      std::vector<Ident> I; for (int r = 0; r < np; r++) I.push_back(identify(mute, "", *W, q[r], r, io));
      std::map<IV, int> ekey[4]; for (int d = 0; d <= dim; d++) for (int w = 0; w < W->n(d); w++) { IV v; if (d == 0) v = {w}; else if (d == 1) v = {D.e[w].first, D.e[w].second}; else if (d == 2) v = D.f[w]; else v = W->ev[w]; std::sort(v.begin(), v.end()); ekey[d][v] = w; }
      for (size_t s = 0; s < sn.size(); s++) { for (auto& v : S[s].m) want[s].insert(ekey[S[s].dim].count(v) ? ekey[S[s].dim][v] : -1);
        for (int r = 0; r < np; r++) { auto& v = G[r]; size_t& z = pos[r]; int there = (int)v[z++]; CHECK(c, there || S[s].m.empty(), k + ".set-lost", "rank %d has no set %s", r, sn[s].c_str()); if (!there) continue; int ed = (int)v[z++], cnt = (int)v[z++]; CHECK(c, ed == S[s].dim, k + ".set-dim", "rank %d set %s has dimension %d, should be %d", r, sn[s].c_str(), ed, S[s].dim);
          for (int j = 0; j < cnt; j++) { int d = (int)v[z++], i = (int)v[z++]; CHECK(c, d == S[s].dim && i >= 0, k + ".set-member", "rank %d set %s has a strange member", r, sn[s].c_str()); if (d >= 0 && i >= 0) { int w = I[r].at[d][i]; CHECK(c, want[s].count(w), k + ".set-extra", "rank %d set %s has member %d, which the set that was written has not", r, sn[s].c_str(), w); got[s].insert(w); } c.count("set_members"); } }
        CHECK(c, got[s] == want[s], k + ".set-missing", "set %s has %zu of %zu members on all ranks together", sn[s].c_str(), got[s].size(), want[s].size()); } }
    // attributes: real-valued ones, components one by one
    std::vector<std::string> fn2; std::vector<double> info; for (auto& a : an) { (void)a; }
    { std::vector<std::string> all; std::vector<int> src, cmp, e2; if (p.root()) { Rng b(bs); (void)b; }
      // names as in the file: scalar under its own name, components with a suffix
      std::string js; if (p.root()) for (size_t a = 0; a < an.size(); a++) for (int e = 0; e < 2; e++) if (!wa[e][a].empty()) { int nent = e ? W->n(dim) : W->n(0), nc = (int)wa[e][a].size() / nent; js += an[a] + " " + std::to_string(e) + " " + std::to_string(nc) + "\n"; }
      js = bcast_str(p, js); std::vector<std::vector<double>> vals; std::vector<double> out; size_t z = 0;
      while (z < js.size()) { size_t y = js.find('\n', z); char nm[300]; int e, nc; sscanf(js.substr(z, y - z).c_str(), "%299s %d %d", nm, &e, &nc); z = y + 1;
        MAttrib_ptr a = MESH_AttribByName(back, nm); out.push_back(a ? MAttrib_Get_NumComps(a) : -1); out.push_back(a ? (double)MAttrib_Get_EntDim(a) : -1);
        for (void* t : ents(back, e ? dim : 0)) for (int i = 0; i < nc; i++) { int iv; double dv = 0; void* pv = nullptr; double x = 0; if (a) { MEnt_Get_AttVal(t, a, &iv, &dv, &pv); x = MAttrib_Get_Type(a) == DOUBLE ? dv : pv && i < MAttrib_Get_NumComps(a) ? ((double*)pv)[i] : 0; } out.push_back(x); } }
      auto O = par_gather(p, out);
      if (p.root() && !c.failed()) { IdOpt io; io.edgedir = io.facedir = io.cls = false; Ctx mute;
        for (int r = 0; r < np; r++) { Ident I = identify(mute, "", *W, q[r], r, io); size_t t = 0; z = 0;
          while (z < js.size()) { size_t y = js.find('\n', z); char nm[300]; int e, nc; sscanf(js.substr(z, y - z).c_str(), "%299s %d %d", nm, &e, &nc); z = y + 1; size_t a = std::find(an.begin(), an.end(), nm) - an.begin(); int d = e ? dim : 0;
            int gn = (int)O[r][t++], gd = (int)O[r][t++]; CHECK(c, gn == nc && gd == d, k + ".attribute", "rank %d attribute %s has %d components on dimension %d, should have %d on %d", r, nm, gn, gd, nc, d);
            for (size_t i = 0; i < q[r].e[d].size(); i++) { int w = I.at[d][i]; for (int cc = 0; cc < nc; cc++) { double x = O[r][t++]; if (w < 0 || gn != nc) continue; if (e ? own[w] != r : q[r].e[0][i].pt == PGHOST) continue; c.count("attribute_values"); CHECK(c, x == wa[e][a][(size_t)w * nc + cc], k + ".attribute-value", "rank %d attribute %s component %d on %s %d is %.17g, should be %.17g", r, nm, cc, e ? "element" : "vertex", w, x, wa[e][a][(size_t)w * nc + cc]); } } } } }
    }
    if (weave) { judge_local(c, k, "P02", back, dim, p.rank); judge_local(c, k, "P03", back, dim, p.rank); }
    int st = par_stray(p); CHECK(c, !st, k + ".stray-message", "rank %d: a message with tag %d was sent and not received", p.rank, st - 1);
    MESH_Delete(back); delete W;
    PMPI_Barrier(p.own); if (p.root()) { std::string cmd = "rm -rf " + dir; if (system(cmd.c_str())) {} }
  }
  par_free(p);
  c.mix(model_hash(m)); c.mix(np * 100 + ring * 10 + ring2); c.mix(bs); c.nontrivial = np > 1;
}

CASE(P09, global_file, 2) {
  Rng& g = c.rng; int np = g.range(2, par_world()), kind = g.pick(IV{0, 1, 1, 1, 2, 3}); Model m = file_model(g);
  auto fits = [&](int per) { return n_elem(m) >= per * np && (per == 1 || elem_components(m) == 1); };       // otherwise METIS may leave a part empty
  bool flat = kind != 3 && g.chance(0.35);     // surfaces large enough to be read in parts
  for (int i = 0; i < 60 && (!fits(kind == 3 ? 1 : 16) || (flat && m.dim == 3 && i < 40)); i++) { if (i % 8 == 7 && np > 2) np--; m = file_model(g, flat ? 14 : i < 30 ? 8 : 5, flat); if (flat && i < 30) { size_t a = 99, b = 0; for (auto& f : m.f) { a = std::min(a, f.v.size()); b = std::max(b, f.v.size()); } if (a == b && g.chance(0.6)) m = Model(); } }
  int n = n_elem(m); if (!fits(kind == 3 ? 1 : 16)) kind = 3; if (np > n) np = n;
  Par p = par_comm(c, np); np = p.np; uint64_t ds = g.next(), bs = g.next(); par_delays(ds, g.below(5)); int ring = kind == 1 ? g.chance(0.8) : g.chance(0.2) ? 2 : 1; RepType rep = g.chance(0.8) ? F1 : F4; BuildOpt bo = rand_build(g, rep, m.dim);
  static const char* kn[] = {"Exodus file read on rank 0 and distributed", "Exodus file read in parts", "native file read and distributed", "Exodus file read on rank 0 only"}; static const char* kk[] = {"distribute", "partial", "native", "rank0"}; std::string k = kk[kind];
  bool att = g.chance(0.7);
  c.note("%s, %d elements on %d ranks, %s, %d ghost layer(s)", m.kind.c_str(), n, np, kn[kind], ring);
  if (p.in() && np > 1) {
    Dump D; int dim = m.dim; std::string dir = "g" + std::to_string(c.index); if (p.root() && mkdir(dir.c_str(), 0755)) {} std::string fn = dir + (kind == 2 ? "/m.mstk" : "/m.exo"); std::map<V3, int> blk;
    if (p.root()) { Rng b(bs); MView w = build(b, m, rep, bo); Ctx q; q.rng = Rng(bs + 1); if (kind == 2) classify_random(q, w.m); else set_blocks(q.rng, w.m, dim); D = dump_mesh(w.m, false); int ok = kind == 2 ? MESH_WriteToFile(w.m, fn.c_str(), rep, nullptr) : MESH_ExportToExodusII(w.m, fn.c_str(), -1, nullptr, nullptr, nullptr); CHECK(c, ok == 1, k + ".write", "writing returned %d", ok); MESH_Delete(w.m);
      if (kind == 2) { Mesh_ptr t = MESH_New(UNKNOWN_REP); MESH_InitFromFile(t, fn.c_str(), nullptr); D = dump_mesh(t, false); MESH_Delete(t); } }   // coordinates to printed precision
    PMPI_Barrier(p.own);
    // polyhedral blocks cannot be read in parts with this Exodus library, and MSTK says so
    int poly = 0; if (p.root() && kind == 1) { FILE* f = fopen(fn.c_str(), "rb"); std::string t(1 << 22, 0); t.resize(f ? fread(&t[0], 1, t.size(), f) : 0); if (f) fclose(f); for (char& ch : t) ch = toupper(ch); poly = t.find("NFACED") != std::string::npos; }
    PMPI_Bcast(&poly, 1, MPI_INT, 0, p.own); if (poly) { kind = 0; k = kk[0]; ring = 1; }
    Mesh_ptr my = kind == 2 ? nullptr : MESH_New(F1); int ok = 1, po[5] = {kind != 3, kind == 1, ring, 0, 0}, dd = dim;
    if (kind == 2) ok = MSTK_Mesh_Read_Distribute(&my, fn.c_str(), &dd, ring, att, 0, p.comm); else ok = MESH_ImportFromExodusII(my, fn.c_str(), po, p.comm);
    CHECK(c, ok == 1, k + ".read", "rank %d: reading returned %d", p.rank, ok);
    std::vector<Part> q = collect(p, my, dim);
    if (p.root()) {
      Whole W(D, dim); IdOpt io; io.edgedir = io.facedir = io.cls = kind == 2; 
      if (kind == 3) { for (int r = 0; r < np; r++) { Ident I = identify(c, k, W, q[r], r, io); CHECK(c, (int)q[r].e[dim].size() == (r ? 0 : W.n(dim)), k + ".elements", "rank %d has %zu elements of %d", r, q[r].e[dim].size(), W.n(dim)); } }
      else { judge(c, k, "P01", W, q, ring, nullptr, io); if (!c.failed()) judge(c, k, "P03", W, q, ring, nullptr, io); if (!c.failed()) judge(c, k, "P02", W, q, ring, nullptr, io); }
      if (kind != 2) for (int r = 0; r < np && !c.failed(); r++) { Ctx mute; Ident I = identify(mute, "", W, q[r], r, io); for (size_t i = 0; i < q[r].e[dim].size(); i++) { int w = I.at[dim][i]; if (w >= 0) CHECK(c, q[r].e[dim][i].gg == W.c(dim)[w].second, k + ".block", "rank %d element %d is in block %d, should be in %d", r, w, q[r].e[dim][i].gg, W.c(dim)[w].second); } }
    }
    if (kind != 3) { judge_local(c, k, "P02", my, dim, p.rank); judge_local(c, k, "P03", my, dim, p.rank); }
    int st = par_stray(p); CHECK(c, !st, k + ".stray-message", "rank %d: a message with tag %d was sent and not received", p.rank, st - 1);
    MESH_Delete(my);
    PMPI_Barrier(p.own); if (p.root()) { std::string cmd = "rm -rf " + dir; if (system(cmd.c_str())) {} }
  }
  par_free(p);
  c.mix(model_hash(m)); c.mix(np * 100 + ring * 10 + kind); c.mix(bs); c.nontrivial = np > 1;
}

// text formats: every rank writes its own file; GMV and X3D files are read on all ranks and woven together, native files one by one
CASE(P09, text_files, 1) {
  Rng& g = c.rng; int np = g.range(2, par_world()); Model m = file_model(g); int n = n_elem(m); if (np > n) np = n;
  Par p = par_comm(c, np); np = p.np; int kind = g.below(3), ring = kind == 0 ? 0 : g.range(0, 1), ring2 = kind == 0 ? 1 : g.range(0, 1); uint64_t ds = g.next(), bs = g.next(); par_delays(ds, g.below(5)); int mode; IV parts = rand_parts(g, m, np, mode); RepType rep = g.chance(0.8) ? F1 : F4; BuildOpt bo = rand_build(g, rep, m.dim);
  static const char* kn[] = {"gmv", "x3d", "native"}; std::string k = kn[kind]; 
  c.note("%s, %d elements on %d ranks, %d ghost layer(s), %s files, read with %d layer(s)", m.kind.c_str(), n, np, ring, kn[kind], ring2);
  if (p.in() && np > 1) {
    int dim = m.dim; std::string dir = "t" + std::to_string(c.index); if (p.root() && mkdir(dir.c_str(), 0755)) {} PMPI_Barrier(p.own);
    Dump D; Mesh_ptr whole = nullptr, my = nullptr; int dd = p.root() ? dim : 0; std::string fn = dir + (kind == 0 ? "/m.gmv" : kind == 1 ? "/m.x3d" : "/m.mstk"), w0 = dir + (kind == 0 ? "/w.gmv" : "/w.x3d");
    if (p.root()) { Rng b(bs); MView w = build(b, m, rep, bo); whole = w.m; Ctx q; q.rng = Rng(bs + 1);
      if (kind == 2) { classify_random(q, whole); std::vector<MType> dims = {MVERTEX, (MType)dim}; add_attributes(q, whole, 2, false, dims, "a", 1e3); }
      else { for (void* e : ents(whole, dim)) { MEnt_Set_GEntDim(e, dim); MEnt_Set_GEntID(e, q.rng.range(1, 3)); } }
      if (kind < 2) { int ok = kind == 0 ? MESH_ExportToGMV(whole, w0.c_str(), 0, nullptr, nullptr, nullptr) : MESH_ExportToFLAGX3D(whole, w0.c_str(), 0, nullptr, nullptr, nullptr); CHECK(c, ok == 1, k + ".write", "writing returned %d", ok);
        Mesh_ptr t = MESH_New(F1); ok = kind == 0 ? MESH_ImportFromGMV(t, w0.c_str(), nullptr) : MESH_ImportFromFLAGX3D(t, w0.c_str(), nullptr, nullptr); CHECK(c, ok == 1, k + ".read", "reading returned %d", ok); D = dump_mesh(t, false); MESH_Delete(t); } }
    g_parts = &parts; MSTK_Mesh_Distribute(whole, &my, &dd, ring, 1, 0, 0, p.comm); g_parts = nullptr; if (whole) MESH_Delete(whole);
    if (kind == 2) {
      Dump a = dump_mesh(my, true); int ok = MESH_WriteToFile(my, fn.c_str(), rep, p.comm); CHECK(c, ok == 1, k + ".write", "rank %d: writing returned %d", p.rank, ok);
      Dump a2 = dump_mesh(my, true); same_dump(c, k + ".writing-changed", a2, a); PMPI_Barrier(p.own);
      char rn[400]; snprintf(rn, sizeof rn, "%s.%d.%0*d", fn.c_str(), np, np > 9 ? 2 : 1, p.rank);
      Mesh_ptr t = MESH_New(UNKNOWN_REP); ok = MESH_InitFromFile(t, rn, nullptr); CHECK(c, ok == 1, k + ".read", "rank %d: reading %s returned %d", p.rank, rn, ok);
      if (ok == 1) { Dump b = dump_mesh(t, true); for (auto n : {"Global2Local", "Local2Global"}) { a.att.erase(n); b.att.erase(n); } for (auto it = a.att.begin(); it != a.att.end();) if (it->second.val.empty()) it = a.att.erase(it); else ++it; CmpOpt q; q.xtol = 6e-17; q.atol = 6e-7; q.sets = false; same_dump(c, k, b, a, q); } MESH_Delete(t);
    } else {
      char rn[400]; if (kind == 0) snprintf(rn, sizeof rn, "%s.%05d", fn.c_str(), p.rank); else snprintf(rn, sizeof rn, "%s.%05d", fn.c_str(), p.rank + 1);
      int ok = kind == 0 ? MESH_ExportToGMV(my, rn, 0, nullptr, nullptr, nullptr) : MESH_ExportToFLAGX3D(my, fn.c_str(), 0, nullptr, nullptr, p.comm); CHECK(c, ok == 1, k + ".write", "rank %d: writing returned %d", p.rank, ok);
      PMPI_Barrier(p.own); Mesh_ptr t = MESH_New(F1); int po[5] = {1, ring2, 0, 0, 0};
      ok = kind == 0 ? MESH_ImportFromGMV(t, fn.c_str(), p.comm) : MESH_ImportFromFLAGX3D(t, rn, po, p.comm); CHECK(c, ok == 1, k + ".read", "rank %d: reading returned %d", p.rank, ok);
      std::vector<Part> q = collect(p, t, dim);
      if (p.root()) { Whole W(D, dim); IdOpt io; io.edgedir = io.facedir = io.cls = false; judge(c, k, "P01", W, q, ring2, nullptr, io); if (!c.failed()) judge(c, k, "P03", W, q, ring2, nullptr, io); if (!c.failed()) judge(c, k, "P02", W, q, ring2, nullptr, io); }
      judge_local(c, k, "P02", t, dim, p.rank); judge_local(c, k, "P03", t, dim, p.rank); MESH_Delete(t);
    }
    MESH_Delete(my); int st = par_stray(p); CHECK(c, !st, k + ".stray-message", "rank %d: a message with tag %d was sent and not received", p.rank, st - 1);
    PMPI_Barrier(p.own); if (p.root()) { std::string cmd = "rm -rf " + dir; if (system(cmd.c_str())) {} }
  }
  par_free(p);
  c.mix(model_hash(m)); c.mix(np * 100 + ring * 10 + kind); c.mix(bs); c.nontrivial = np > 1;
}
