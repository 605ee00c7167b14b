// A geometrically consistent classification of a mesh, from its faces' and regions' labels.
#pragma once
#include "meshcmp.h"

struct GeoNet {                       // the mesh's incidences as a single pass of queries gave them
  PV V, E, F, R;
  std::unordered_map<void*, int> ix;
  std::vector<PV> fe, fr, ef, ve, vf, rf;
};
inline GeoNet geo_net(Mesh_ptr m) {
  GeoNet n; n.V = all_of(m, 0); n.E = all_of(m, 1); n.F = all_of(m, 2); n.R = all_of(m, 3);
  for (auto* l : {&n.V, &n.E, &n.F, &n.R}) for (size_t i = 0; i < l->size(); i++) n.ix[(*l)[i]] = (int)i;
  for (void* f : n.F) { n.fe.push_back(take(MF_Edges(f, 1, 0))); n.fr.push_back(take(MF_Regions(f))); }
  for (void* e : n.E) n.ef.push_back(take(ME_Faces(e)));
  for (void* v : n.V) { n.ve.push_back(take(MV_Edges(v))); n.vf.push_back(take(MV_Faces(v))); }
  for (void* r : n.R) n.rf.push_back(take(MR_Faces(r)));
  return n;
}
// regions are labelled 1..nreg, boundary faces get one of npatch patches per pair of regions; edges and
// vertices follow: an edge is on a model face if it separates exactly two faces of it, a vertex is on a
// model edge if exactly two of its edges are, on a model face if its faces are one fan of that face
inline void geo_classify(Rng& g, Mesh_ptr m, const GeoNet& n, int nreg, int npatch) {
  int D = n.R.empty() ? 2 : 3;
  for (void* r : n.R) { MR_Set_GEntDim(r, 3); MR_Set_GEntID(r, g.range(1, nreg)); }
  std::map<IV, int> fid; std::map<std::vector<int>, int> eid; int nv = 0;
  IV fd(n.F.size()), fi(n.F.size()), ed(n.E.size()), ei(n.E.size());
  for (size_t i = 0; i < n.F.size(); i++) {
    IV p; for (void* r : n.fr[i]) p.push_back(MR_GEntID(r)); while (p.size() < 2) p.push_back(0); std::sort(p.begin(), p.end());
    if (D == 3 && n.fr[i].size() == 2 && p[0] == p[1]) { fd[i] = 3; fi[i] = p[0]; }
    else { p.push_back(g.below(npatch)); fd[i] = 2; auto it = fid.insert({p, (int)fid.size() + 1}).first; fi[i] = it->second; }
    MF_Set_GEntDim(n.F[i], fd[i]); MF_Set_GEntID(n.F[i], fi[i]);
  }
  for (size_t i = 0; i < n.E.size(); i++) {
    IV b; for (void* f : n.ef[i]) { int j = n.ix.at(f); if (fd[j] == 2) b.push_back(fi[j]); } std::sort(b.begin(), b.end());
    if (b.empty() && n.ef[i].size()) { ed[i] = 3; ei[i] = fi[n.ix.at(n.ef[i][0])]; }
    else if (b.size() == 2 && b[0] == b[1]) { ed[i] = 2; ei[i] = b[0]; }
    else { ed[i] = 1; ei[i] = eid.insert({b, (int)eid.size() + 1}).first->second; }
    ME_Set_GEntDim(n.E[i], ed[i]); ME_Set_GEntID(n.E[i], ei[i]);
  }
  for (size_t i = 0; i < n.V.size(); i++) {
    IV b; int d3 = 0; for (void* e : n.ve[i]) { int j = n.ix.at(e); if (ed[j] == 1) b.push_back(ei[j]); else if (ed[j] == 3) d3 = ei[j]; }
    int d, id;
    std::vector<int> bf; for (void* f : n.vf[i]) { int j = n.ix.at(f); if (fd[j] == 2) bf.push_back(j); }
    if (b.size() == 2 && b[0] == b[1]) { d = 1; id = b[0]; }
    else if (!b.empty()) { d = 0; id = ++nv; }
    else if (bf.empty()) { if (d3) { d = 3; id = d3; } else { d = 0; id = ++nv; } }
    else {                                       // one fan?
      std::vector<int> st = {bf[0]}; std::set<int> seen = {bf[0]}, all(bf.begin(), bf.end());
      while (!st.empty()) { int j = st.back(); st.pop_back(); for (void* e : n.fe[j]) if (ME_Vertex(e, 0) == n.V[i] || ME_Vertex(e, 1) == n.V[i]) for (void* f : n.ef[n.ix.at(e)]) { int k = n.ix.at(f); if (all.count(k) && seen.insert(k).second) st.push_back(k); } }
      if (seen.size() == all.size()) { d = 2; id = fi[bf[0]]; } else { d = 0; id = ++nv; }
    }
    MV_Set_GEntDim(n.V[i], d); MV_Set_GEntID(n.V[i], id);
  }
}
