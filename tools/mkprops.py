#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
# what a statement does not claim (see DESIGN.md for why)
SCOPE = {
"C02": "Vertex-to-vertex and vertex-to-edge queries of R2 and R4 and region-to-region queries of R1 and R2 are not implemented and not claimed; reduced representations count and iterate entities of a kind only if they store them; R4 regions are built from faces.",
"C05": "F1 and F4; restoring after a renumbering is not claimed.",
"C06": "Restoring after a renumbering is not claimed.",
"C07": "Names shorter than 256 characters.",
"C08": "Names shorter than 256 characters.",
"C10": "In F1.",
"C11": "In F1; collapses with the topology flag only where the merges it implies are compatible with the model and the result is a proper mesh.",
"C12": "In F1; the model entity of a swapped edge is not claimed.",
"C13": "R1/R2 files of standard element types; values to the printed precision; attribute names without spaces; pointer attributes and attributes without any value are not stored.",
"C14": "Real-valued attributes; sets by the names the format uses (nodeset_, sideset_, elemset_N); names shorter than 32 characters; planar meshes at a constant nonzero height, which come back at height zero, are not claimed; shells have three or four nodes; reduced representations only with standard elements and without side sets.",
"C15": "Import claimed for cells of one dimension; X3D in F1/F4 for manifold meshes with positive region labels; values to the printed precision, integers come back as reals.",
"C16": "General polyhedra are not part of a DX file.",
"C17": "To the same representation or between F1 and F4; values equal to zero may be left out; pointer attributes are created without values.",
"C19": "F1 and F4, region labels not negative; angles at the threshold are left out; with geometry a second run may relabel edges and vertices.",
"C20": "Bandwidth reduction in F1 and F4.",
"C21": "Leaks are judged for full representations.",
"C22": "Local IDs consecutive; files of manifold meshes.",
"C23": "F1 and F4; breakages of the kinds the checker documents.",
"C24": "In the default build, where every query makes new objects (the source option HASHTABLE is not used).",
"C25": "F1 and F4; the model entities of edges and faces of a converted mesh are not claimed; the interior is what the classification says.",
"C26": "The dihedral angle exactly for planar convex faces.",
"C27": "Exodus II files (netCDF and HDF5 are not thread safe) and operations that change the process's working directory are not run concurrently.",
"C30": "In F1 and F4; the new edges join the ends of the old ones; the element type of a region whose faces get other edges is the caller's to update.",
"C29": "With faces only or regions only, representation given.",
"P01": "F1 and F4, at least one element for each rank.",
"P02": "F1 and F4, at least one element for each rank.",
"P03": "F1 and F4, at least one element for each rank.",
"P04": "Attributes on one kind of entity; pointers are not transferred.",
"P05": "Attributes on one kind of entity; pointers are not transferred; averages of integers are refused; vectors are compared by length; more than one rank.",
"P06": "Manifold meshes with distinct vertex coordinates, at least one element for each rank, at most one ghost layer; directions of edges and faces of separately built parts may differ.",
"P07": "Edges and faces exchanged are those between exactly two elements.",
"P08": "With the default method.",
"P09": "Polyhedral blocks are read on one rank (the installed Exodus II library cannot read them in parts).",
"P10": "Column structure for columnar meshes; Zoltan RCB may leave parts empty.",
"P11": "For the partitioning given or by METIS (Zoltan's own random choices excluded).",
"P12": "Attributes on one kind of entity; values equal to zero may be left out; pointers are not transferred.",
}
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    if id in SCOPE: statement += " (" + SCOPE[id] + ")"
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          observe_at=observe or ["the public query functions of include/MSTK.h"],
                          hook_needed=None))
    P.append(d)

# ------------------------------------------------------------- topology core
p("C01", "Adjacency answers are complete and mutually consistent",
  "For every valid mesh held in a full representation (F1 or F4), every adjacency query between vertices, edges, faces and regions returns exactly the set of distinct entities implied by the mesh's element-to-vertex connectivity, and upward and downward queries are inverses of each other. Counts, list-returning, ID-returning, 'uses entity', 'common entity', 'opposite vertex' and face-side (region on the positive/negative side) forms of the same question agree.",
  ["inputs", "histories"], "all meshes (dimension 2 and 3, all element shapes, non-manifold and mixed), both construction routes, and all entities of each",
  "Tests check a few adjacencies on a handful of fixed small meshes in mostly F1; each adjacency is a separate routine per representation.",
  ["src/base/MVertex_F1.c", "src/base/MVertex_F4.c", "src/base/MEdge_F1.c", "src/base/MEdge_F4.c", "src/base/MF_Edge_Funcs_F1F3.c", "src/base/MF_Vertex_Funcs_F1F3.c", "src/base/MR_Face_Funcs_FNR3R4.c", "src/base/MR_Vertex_Funcs_FNR3R4.c"],
  [("stored upward/downward adjacency lists kept in step by the Set/Add/Rem functions", "src/base/M*_F1.c, M*_F4.c")],
  [("vertex edge list, edge face list, face edges and region sides", "stored adjacencies", "include/MVertex.h, MEdge.h, MFace.h, MRegion.h")])
p("C02", "All mesh representations answer queries identically",
  "For a mesh of standard elements (and general polyhedra where the representation supports them), the answers to entity counts and to all topological queries, compared as sets of vertex tuples (and cyclic order and side for faces), are the same whichever of the representations F1, F4, R1, R2, R4 stores the mesh. Entities that a representation does not store are found on demand and each appears exactly once.",
  ["inputs", "configurations"], "all representations x all meshes x all queries",
  "Only a few queries are unit-tested in the reduced representations, on one or two files.",
  ["src/base/MVertex_R1.c", "src/base/MVertex_R2.c", "src/base/MVertex_R4.c", "src/base/MFace_R1.c", "src/base/MF_Vertex_Funcs_R1.c", "src/base/MF_Edge_Funcs_R1.c", "src/base/MR_Face_Funcs_R1.c", "src/base/MR_Edge_Funcs_R1.c", "src/base/ME_Face_Funcs_R1R2.c", "src/base/ME_Region_Funcs_RN.c"],
  [("per-representation jump tables", "include/M*_jmp.h"), ("volatile entity hash tables", "src/util/Hash.c, src/base/Mesh.c")])
p("C03", "Ordering and orientation conventions are honoured",
  "Face vertices and edges are returned as consecutive cycles in the requested rotation beginning at the requested start vertex (the reverse direction being the exact reversed cycle), edge directions agree with the edge's vertex order, region face directions are 1 exactly when the face normal points out of the region, and the region on side 1 of a face is the one the normal points into. For standard 3D elements the vertices come back in the documented template order, i.e. bottom face then the matching top vertices, positively oriented, and an edge has its end vertices in the order set.",
  ["inputs"], "all entities of all meshes, every start vertex, both directions, every representation that supports the query",
  "Tests compare against stored lists for a few entities; every start vertex and direction of every entity in each representation is not sampled.",
  ["src/base/MF_Edge_Funcs_F1F3.c", "src/base/MF_Vertex_Funcs_F1F3.c", "src/base/MR_Vertex_Funcs_FNR3R4.c", "include/MSTK_globals.h"],
  [("direction bits and start-vertex rotation", "src/base/MF_*_Funcs_*.c"), ("region templates", "include/MSTK_globals.h")])
p("C04", "Entity creation, deletion and iteration keep exact books",
  "After any sequence of entity creations and deletions, entity counts, index access and iteration return exactly the live entities, each once, and remaining entities keep their identity, IDs, coordinates, classification and adjacencies. Deleting a higher-dimensional entity removes it from all upward adjacency answers of its boundary.",
  ["histories"], "all interleavings of creating and deleting vertices, edges, faces and regions, including deletion while iterating",
  "Tests create meshes once and delete at most one or two entities.",
  ["src/base/Mesh.c", "src/base/MVertex.c", "src/base/MEdge.c", "src/base/MFace.c", "src/base/MRegion.c", "src/util/List.c"],
  [("MESH_Add_*/MESH_Rem_* bookkeeping and lists with gaps", "src/base/Mesh.c, src/util/List.c")])
p("C05", "Deleted-but-kept entities are marked and can be restored",
  "An entity deleted with the keep option disappears from the mesh's counts, iteration and upward adjacencies, reports itself as deleted while still telling its original dimension, and restoring it brings back the same entity with the same ID, boundary and adjacency answers as before the deletion.",
  ["histories"], "all entity kinds, full representations, any order of top-down deletion and bottom-up restoration",
  "No test deletes with keep and restores.",
  ["src/base/MVertex.c", "src/base/MEdge.c", "src/base/MFace.c", "src/base/MRegion.c", "src/base/MEntity.c"],
  [("keep flag and Restore functions", "src/base/M{Vertex,Edge,Face,Region}_F1.c")])
p("C06", "Local IDs are unique and lookups by ID find the right entity",
  "Live entities of one type have pairwise distinct positive IDs, and looking up an entity by its ID returns that very entity (and nothing for an ID no live entity has), through any history of creation, deletion, explicit ID setting and renumbering, with or without ID search having been enabled. The same holds for lookup by global ID, for every type of entity, once global ID search is enabled (again) after the last change.",
  ["histories", "inputs"], "all histories of additions, deletions, renumberings and lookups",
  "Tests look up IDs in untouched meshes, where ID and position coincide.",
  ["src/base/Mesh.c", "src/hilev/MESH_Renumber.c", "src/base/MEntity.c"],
  [("ID assignment and *FromID search", "src/base/Mesh.c")])
p("C07", "Attributes hold exactly the values last set",
  "For every history of attribute definition, setting, reading, clearing, removal and deletion, a read returns the value last set on that entity for that attribute, or the documented null result if none is set, independently for all entities and attributes; attribute name, type, dimension and component count are those given at definition.",
  ["histories"], "all attribute types (int, double, pointer, vector, tensor), entity dimensions, and orders of operations, including deletion of entities and attributes",
  "Tests set and read one or two attributes once.",
  ["src/base/MAttrib.c", "src/base/MEntity.c", "src/base/Mesh.c"],
  [("per-entity attribute instance list", "src/base/MEntity.c")])
p("C08", "Mesh sets behave as ordered sets with correct algebra",
  "Mesh sets behave like a sequence under add, checked add, insert, remove, replace, locate, contains, entry, iteration, concatenate and copy, and union, intersection and subtraction yield exactly the mathematical result without altering the operands; lookup by name and index finds each live set, and set name and dimension are those given.",
  ["histories"], "all operation sequences on several sets of one mesh",
  "Only construction and membership are exercised by tests.",
  ["src/base/MSet.c", "src/base/Mesh.c"],
  [("MSet operations on a list", "src/base/MSet.c")])
p("C09", "Lists behave exactly like a sequence",
  "Under every sequence of operations (add, checked add, insert, remove by value, index or sorted search, replace, concatenate, copy, compress, sort, search, iterate, also while removing) a list gives the answers of an ordinary sequence: order preserved, counts exact, positions counted over the present entries, failures reported by the documented return value and leaving the list unchanged.",
  ["histories"], "all operation histories and list lengths, including removals that leave gaps and out-of-range positions",
  "Lists have no direct unit test; bugs surface only when gaps combine with other operations.",
  ["src/util/List.c", "include/List.h"],
  [("gap-tolerant array with first-gap index", "src/util/List.c")],
  [("first-gap index, entry count", "List internals", "include/List.h")])
# ------------------------------------------------------------- modification
p("C10", "Split operators refine without changing the domain",
  "Splitting an edge (once, at several points, or with its simplices), a face (at a point, along a new edge, or with its simplices) or a region (by an edge loop) leaves a consistent mesh in which the new vertex has the requested location, entity counts change by exactly the amounts the operation implies, the pieces tile the original (total length, area and volume preserved when the split point lies on the entity), element orientation is preserved, and untouched entities are unchanged. New entities are classified on the model entity of the entity they came from.",
  ["histories", "inputs"], "all meshes, all split entities and sequences of splits, in full representations",
  "Tests split one or two entities of one mesh.",
  ["src/mod/ME_Split.c", "src/mod/ME_MultiSplit.c", "src/mod/ME_Split_SimplexMesh.c", "src/mod/MF_Split.c", "src/mod/MF_Split_with_Edge.c", "src/mod/MF_Split_SimplexMesh.c", "src/mod/MR_Split_with_EdgeLoop.c"],
  [("split routines", "src/mod")])
p("C11", "Merge and collapse operators keep the mesh consistent",
  "Merging two vertices, edges or faces, or collapsing an edge, either is refused leaving the mesh unchanged or removes exactly the merged-away entities, so that every remaining entity refers to the retained ones, no entity refers to a deleted one, no duplicate edges or faces arise, and all adjacency answers stay mutually consistent; the lists of deleted and merged entities a collapse reports are exact. With topology preservation on, a retained entity is never classified on a higher-dimensional model entity than the one removed and illegal merges are refused.",
  ["histories", "inputs"], "all meshes, edges and vertex pairs, both values of the topology flag, sequences of collapses",
  "Tests collapse a few edges of two meshes.",
  ["src/mod/MVs_Merge_FN.c", "src/mod/MEs_Merge_FN.c", "src/mod/MFs_Merge_FN.c", "src/mod/ME_Collapse.c"],
  [("classification checks and replace operations", "src/mod")])
p("C12", "Join and swap operators preserve area, volume and validity",
  "Joining two faces along an edge or two regions along a face, and swapping an edge between two triangles, produce the entity bounded by exactly the remaining boundary with consistent direction, remove exactly the entities stated, preserve total area and volume, and leave all other entities and adjacencies consistent; inapplicable requests are refused and leave the mesh unchanged.",
  ["histories", "inputs"], "all pairs of adjacent faces/regions and all interior edges, in sequences, with every relative orientation",
  "Tests join a couple of pairs, with one orientation.",
  ["src/mod/MFs_Join.c", "src/mod/MRs_Join.c", "src/mod/ME_Swap2D.c"],
  [("join routines", "src/mod")])
# ------------------------------------------------------------- I/O
p("C13", "Native files round-trip the whole mesh",
  "Writing any mesh to the native format in any representation and reading it back gives a mesh with the same entities, connectivity and orientation, coordinates (to the printed precision), geometric classification, attributes and attribute values, where the file format stores them.",
  ["inputs", "configurations"], "all meshes, element types, attribute types and file representation types",
  "Tests read fixed files; only few write and compare.",
  ["src/base/MESH_WriteToFile.c", "src/base/MESH_InitFromFile.c"],
  [("writer and parser of the native format", "src/base")])
p("C14", "Exodus II files round-trip mesh, blocks, sets and fields",
  "Exporting a mesh to Exodus II and importing it again reproduces elements and their vertices in order, coordinates, element blocks (as the elements' material/model region), side sets and node sets with exactly their members, and exported node and element fields; polygonal and polyhedral elements keep their exact faces.",
  ["inputs"], "all meshes with standard, polygonal and polyhedral elements, block/set labelings and attributes",
  "Tests read fixed Exodus files; only one re-exports.",
  ["src/io/MESH_ExportToExodusII.c", "src/io/MESH_ReadExodusII_Serial.c", "src/io/MESH_ImportFromExodusII.c"],
  [("Exodus writer and reader", "src/io")])
p("C15", "GMV and X3D files carry the same mesh and fields",
  "A mesh exported to GMV and imported again has the same elements, connectivity, coordinates and exported attribute values; an exported FLAG X3D file, decoded independently and through the X3D importer, describes exactly the mesh's nodes, faces with their owner cells and opposite faces, cells, materials and fields.",
  ["inputs"], "all 2D and 3D meshes incl. polygons and polyhedra, and attribute sets",
  "No test covers GMV or X3D export.",
  ["src/io/MESH_ExportToGMV.c", "src/io/MESH_ImportFromGMV.c", "src/io/MESH_ExportToFLAGX3D.c", "src/io/MESH_ImportFromFLAGX3D.c"],
  [("GMV/X3D writers and readers", "src/io")])
p("C16", "Surface and visual exports (STL, OFF, DX) describe the mesh exactly",
  "The STL, OFF and DX exports of a mesh contain exactly its vertices' coordinates and its faces or elements with correct connectivity, counts and orientation (STL: one facet per triangle with the unit normal of its vertex order).",
  ["inputs"], "all surface and solid meshes the formats admit",
  "No test covers these exporters.",
  ["src/io/MESH_ExportToSTL.c", "src/io/MESH_ExportToOFF.c", "src/io/MESH_ExportToDX.c", "src/io/MESH_ExportToDXBin.c"],
  [("writers", "src/io")])
# ------------------------------------------------------------- high level
p("C17", "A mesh copy is faithful and independent",
  "Copying a mesh gives a mesh with the same entities, connectivity, orientation, coordinates, classification and, when asked, the same attributes with values and the same sets, mapped to the copy's own entities; changing or deleting either mesh afterwards does not affect the other.",
  ["inputs", "histories"], "all meshes in any representation, with gaps from prior deletions, with and without attributes and sets",
  "One test copies one mesh.",
  ["src/base/MESH_Copy.c"], [("copy routine", "src/base/MESH_Copy.c")])
p("C18", "Structured generation yields the exact box grid",
  "Generating a structured mesh on a box gives exactly the grid with the requested numbers of elements: lattice coordinates, quad or hex elements positively oriented, total area or volume equal to that of the box, and every entity classified on the box's model vertex, edge, face or region on which it lies, consistently labelled.",
  ["inputs"], "all boxes and element counts in 2D and 3D and all representations",
  "Tests generate one or two grids and look at counts.",
  ["src/hilev/MESH_Gen_Structured.c"], [("grid loops and classification tables", "src/hilev/MESH_Gen_Structured.c")])
p("C19", "Classification building yields a valid model topology",
  "Building classification information gives every entity a model dimension not less than its own, interior entities that of their enclosing model region/face, and exactly the boundary faces/edges/vertices and material interfaces a lower model dimension; entities adjoining the same set of higher model entities across smooth connections share an ID, different boundary patches separated by sharp angles (when geometry is used) get different IDs, and already given region or face labels are kept.",
  ["inputs"], "all 2D and 3D meshes, material labelings and the geometry switch",
  "Tests check one or two files for the resulting counts.",
  ["src/hilev/MESH_BuildClassfn.c", "src/hilev/MESH_BuildFaceClassfn.c", "src/hilev/MESH_BuildEdgeClassfn.c", "src/hilev/MESH_BuildVertexClassfn.c"],
  [("face/edge/vertex classification passes", "src/hilev")])
p("C20", "Renumbering assigns a contiguous permutation of IDs",
  "Renumbering any or all entity types, sequentially or by bandwidth reduction, gives each type exactly the IDs 1..n with no repeats, leaves entities, connectivity, coordinates, attributes and sets otherwise unchanged, sequential numbering following iteration order and bandwidth reduction never producing an invalid permutation on disconnected meshes.",
  ["inputs", "histories"], "all meshes (connected or not, with deletions), types and methods",
  "Tests renumber two meshes.",
  ["src/hilev/MESH_Renumber.c", "src/util/Graph_renumber.c"], [("RCM graph renumbering", "src/util/Graph_renumber.c")])
p("C21", "Library operations are memory-safe and release what they own",
  "In every history of valid library calls, no operation reads or writes outside live memory, uses uninitialised storage, executes undefined behaviour, or frees twice; deleting a mesh in a full representation releases all storage owned by it, so that repeated build-use-delete cycles leak nothing.",
  ["histories", "inputs"], "all call histories over all modules (topology, modification, I/O, sets, attributes) and representations",
  "Tests run without sanitizers and never look at leaks.",
  ["src/base/Mesh.c", "src/util/List.c", "src/util/Hash.c", "src/base/MEntity.c", "src/mod", "src/io", "src/hilev"],
  [("ownership: mesh owns entities, sets, attributes", "src/base/Mesh.c MESH_Delete")])
p("C22", "The element graph is the exact dual graph",
  "The element adjacency graph obtained from a mesh or straight from an Exodus II file lists for each element exactly the elements sharing a face (3D) or edge (2D), symmetric, without self loops or duplicates, with consistent offsets and, when asked, correct element centers.",
  ["inputs"], "all meshes incl. mixed, polyhedral and non-manifold, and their Exodus files",
  "One test checks a file's graph.",
  ["src/hilev/MESH_GetElementGraph.c", "src/io/ExodusII_GetElementGraph.c"], [("graph construction", "src/hilev, src/io")])
p("C23", "The topology checker accepts valid and rejects broken meshes",
  "The topology checker reports success for every valid mesh in every full representation and reports failure when the mesh's topology or classification is broken in a way it documents: dangling references, one-sided adjacency, inconsistent face direction or orientation, impossible classification.",
  ["inputs", "fault_sequences"], "all valid meshes and seeded corruptions",
  "Tests call it on a few valid meshes only.",
  ["src/hilev/MESH_CheckTopo.c"], [("checks per entity type", "src/hilev/MESH_CheckTopo.c")])
p("C24", "On-demand entities in reduced representations are stable",
  "In a reduced representation (R1, R2, R4), an edge or face that is not stored is created on demand: whatever the history of queries, locks and unlocks, each object given has the right vertices, stays right until it is given back, is reported as the same as another exactly when they are the same entity, always has the same classification (following its vertices), is locked exactly as long as its lock count or automatic locking says, and can be given back without harm to the mesh or to others; the table that can keep such objects finds them by key, counts and lists them exactly, and gives up only unlocked ones.",
  ["histories"], "all interleavings of queries, locks, unlocks and automatic locking in R1, R2 and R4",
  "No test locks entities or interleaves queries in reduced representations.",
  ["src/util/Hash.c", "src/base/MEdge_R1.c", "src/base/MFace_R1.c", "src/base/MR_Edge_Funcs_R3R4.c"], [("entity hash tables with lock counts", "src/util/Hash.c")])
p("C25", "Element conversion and surface extraction are exact",
  "Converting tetrahedra to hexahedra (or triangles to quadrilaterals) yields four hexes per tet (three quads per triangle), conforming, filling the same volume (area), with classification inherited; deleting the interior of a mesh leaves exactly the boundary entities with their mutual adjacencies.",
  ["inputs"], "all tet/tri meshes and all meshes, respectively",
  "No test covers these operations.",
  ["src/hilev/MESH_Tet2Hex.c", "src/hilev/MESH_Tri2Quad.c", "src/hilev/MESH_DelInterior.c"], [("conversion routines", "src/hilev")])
p("C26", "Geometric queries agree with the geometry",
  "Edge lengths and vectors, face and region coordinates (in the order of the corresponding vertex query), dihedral and edge angles, and element condition numbers equal the values computed directly from the vertex coordinates and connectivity, are invariant under rigid motion, and ideal elements have the optimal condition number.",
  ["inputs"], "all element shapes and positions",
  "Tests do not check geometric functions.",
  ["src/base/ME_Geometry.c", "src/hilev/MF_Coords.c", "src/hilev/MR_Coords.c", "src/hilev/MFs_DihedralAngle.c", "src/hilev/MEs_Angle.c", "src/misc/MF_CondNums.c", "src/misc/MSTK_VecFuncs.c"], [("formulas", "src/hilev, src/misc")])
p("C27", "Read-only queries may run concurrently",
  "In the default build, any number of threads may issue topological, geometric, attribute and set read queries on the same full-representation mesh at once: no data race occurs and every thread obtains the answers a single thread obtains; threads working on different meshes do not disturb each other.",
  ["schedules"], "all interleavings of read-only queries from several threads on F1 and F4 meshes, and of building/modifying distinct meshes",
  "All tests are single-threaded.",
  ["src/base", "src/util/List.c"], [("queries keep all scratch state on the stack when markers are off", "src/base")])
p("C28", "Entity marking is exact and transparent",
  "With marking configured, a marker obtained marks exactly the entities it was applied to, independently of all other markers in use, freed markers can be reused, and all library queries and operations give the same answers as in the default configuration and leave no markers behind.",
  ["configurations", "histories"], "all marker histories up to the supported number, and all queries in the marker build",
  "The marker build is not tested by the suite at all.",
  ["src/base/MSTK.c", "src/base/MEntity.c", "src/util/List.c"], [("marker bit fields", "src/base/MSTK.c, MEntity.c")])
p("C29", "Meshes built from a general description equal the description",
  "Initialising a mesh from arrays describing vertices, edges, faces and regions (by vertices, or by lower-dimensional entities) yields exactly the described mesh in the requested representation, with entities in the order and orientation given and shared sub-entities created once.",
  ["inputs"], "all general descriptions of 2D and 3D meshes",
  "No test calls it.",
  ["src/hilev/MESH_InitFromGenDesc.c"], [("builder", "src/hilev/MESH_InitFromGenDesc.c")])
p("C30", "Editing the boundary of an entity keeps both directions of adjacency true",
  "Replacing the edges of a face (by list or by position, with fewer, as many or more new ones, listed either way round, across the start of the face too), removing an edge from a face, replacing, removing and adding faces of a region, and replacing an end of an edge leave the entity with exactly the boundary asked for, with the directions that follow, in an unchanged cyclic order; entities taken out no longer know the edited one, entities put in do, in both representations with explicit faces and edges; everything else is unchanged.",
  ["histories", "inputs"], "all meshes, all runs of edges and sets of faces, in sequences, every listing order and direction",
  "Tests replace one edge by one or two and one face by others in a fixed mesh.",
  ["src/base/MF_Edge_Funcs_F1F3.c", "src/base/MF_Edge_Funcs_F2F4.c", "src/base/MR_Face_Funcs_FNR3R4.c", "src/base/MEdge.c"],
  [("replace and remove functions", "src/base")])
# ------------------------------------------------------------- parallel
p("P01", "Distribution partitions the mesh exactly",
  "After distributing a mesh over any number of ranks, every element of the original mesh is owned by exactly one rank, with its vertices' coordinates, connectivity, orientation and classification unchanged, every lower-dimensional entity is owned by exactly one rank, and each rank holds exactly its elements plus the requested layer of ghost elements.",
  ["inputs", "configurations"], "all meshes, rank counts, partitioners, ghost-layer options",
  "Tests use a handful of meshes on 4 or 8 ranks.",
  ["src/par/MSTK_Mesh_Distribute.c", "src/par/MESH_Partition.c", "src/par/MESH_BuildSubMesh.c", "src/par/MESH_AddGhost.c", "src/par/MESH_SendMesh.c", "src/par/MESH_RecvMesh.c"], [("partition, submesh construction, send/receive", "src/par")])
p("P02", "Global IDs are unique and consistent across ranks",
  "After distribution or weaving, all copies of one entity on different ranks carry the same global ID, different entities of a type never share one, the owned entities' IDs cover a set the size of the global entity count, and lookup by global ID returns the right local copy.",
  ["inputs", "schedules"], "all meshes, rank counts and message timings",
  "Tests check a few IDs.",
  ["src/par/MESH_AssignGlobalIDs.c", "src/par/MESH_AssignGlobalIDs_point.c", "src/base/Mesh.c"], [("global ID assignment", "src/par")])
p("P03", "Ghost, overlap and master information agree between ranks",
  "Every ghost entity names as master the rank owning it, that rank holds the entity as non-ghost with overlap status, every entity with a copy elsewhere has ghost or overlap status and all others are interior; the per-type ghost and overlap lists and counts contain exactly these entities and the built-in parallel checker accepts the mesh.",
  ["inputs", "schedules"], "all distributed or woven meshes, rank counts and message timings",
  "Tests check a few statuses for fixed meshes.",
  ["src/par/MESH_LabelPType.c", "src/par/MESH_BuildGhostList.c", "src/par/MESH_ParallelAdj.c", "src/par/MESH_BuildPBoundary.c", "src/par/MESH_Parallel_Check.c"], [("status labelling, ghost lists and parallel adjacency", "src/par")])
p("P04", "Attribute update copies owner values to every ghost",
  "After an attribute update, each ghost entity's value (int, double, vector or tensor, any entity type) equals the value its owner had at the time, and owned values are unchanged.",
  ["inputs", "schedules"], "all attribute kinds, meshes, rank counts and message timings",
  "Tests update one attribute kind on one mesh.",
  ["src/par/MESH_UpdateAttributes.c", "src/par/MESH_Update1Attribute.c"], [("pack/exchange/unpack by global ID", "src/par")])
p("P05", "Gather-scatter combines all copies correctly",
  "After a gather-scatter of an attribute with sum, minimum, maximum or average, every copy of an entity on every rank holds the stated combination of all copies' previous values.",
  ["inputs", "schedules"], "all numeric attribute kinds, operators, meshes, rank counts and timings",
  "One test covers one mesh.",
  ["src/par/MESH_GathScat1Attribute.c"], [("gather to owner, combine, scatter", "src/par")])
p("P06", "Weaving recovers the connections of a distributed mesh",
  "Weaving per-rank meshes that together form one mesh, with or without given vertex global IDs, yields ghosts, statuses, owners and global IDs satisfying the same consistency as distribution, with each rank's original elements intact and owned exactly once overall.",
  ["inputs", "configurations", "schedules"], "all ways to split a mesh into per-rank pieces, input types and ghost layers",
  "Tests weave a few fixed files.",
  ["src/par/MSTK_Weave_DistributedMeshes.c", "src/par/MESH_Parallel_AddGhost.c", "src/par/MESH_AssignGlobalIDs.c"], [("matching by coordinates or IDs", "src/par")])
p("P07", "Coordinate update and edge/face exchange reach all copies",
  "After a coordinate update every ghost vertex has its owner's coordinates and owned vertices are unchanged; an edge or face attribute exchange gives each partition-boundary copy the other rank's value as documented.",
  ["inputs", "schedules"], "all meshes, motions, rank counts and timings",
  "One test each on one mesh.",
  ["src/par/MESH_UpdateVertexCoords.c", "src/par/MESH_XchngEdgeFaceAttrib.c"], [("exchange", "src/par")])
p("P08", "Global renumbering gives contiguous consistent IDs",
  "Renumbering global IDs of one or all entity types gives the owned entities of all ranks together exactly the IDs 1..N, all ghost copies their owner's ID, and leaves everything else unchanged.",
  ["inputs", "schedules"], "all distributed meshes, types and rank counts",
  "One test on one mesh.",
  ["src/par/MESH_Renumber_GlobalIDs.c"], [("prefix sums and ghost update", "src/par")])
p("P09", "Distributed files re-read to the same distributed mesh",
  "Writing a distributed mesh to per-rank files (Exodus/Nemesis, native) and reading them back, or reading a global file and distributing or reading it in parallel, yields rank meshes that together contain exactly the original elements once, with connectivity, coordinates, blocks and sets intact.",
  ["inputs", "configurations"], "all meshes, rank counts and read options",
  "Tests read a few fixed files in parallel.",
  ["src/io/MESH_ImportFromExodusII.c", "src/io/MESH_ImportFromNemesisI.c", "src/io/MESH_ReadExodusII_Partial.c", "src/par/MSTK_Mesh_Read_Distribute.c", "src/io/MESH_ExportToExodusII.c"], [("parallel readers/writers", "src/io, src/par")])
p("P10", "Partitioners assign every element a valid part",
  "A requested partitioning assigns each element one part number in range, uses every part for meshes with many more elements than parts, and for column-structured requests keeps stacked elements together; distributing by a method puts each element where that method's partitioning says.",
  ["inputs"], "all meshes, part counts, methods and user partition arrays",
  "Tests partition a few meshes and check little.",
  ["src/par/MESH_Get_Partitioning.c", "src/par/MESH_PartitionWithMetis.c", "src/par/MESH_PartitionWithZoltan.c", "src/par/FixColumnPartitions.c", "src/par/MESH_Partition.c"], [("partitioner wrappers", "src/par")])
p("P11", "Parallel results do not depend on message timing and leave no traffic",
  "For a given input, the distributed mesh, its global IDs, statuses and exchanged values are the same under every message timing; each message sent is received with matching size and type, every request completes, and no operation deadlocks or leaves messages pending.",
  ["schedules"], "all message delays and completion orders",
  "Tests run with whatever timing the machine gives.",
  ["src/par"], [("deterministic rank-ordered assembly of received data", "src/par")])
p("P12", "Attributes and sets travel with a distributed mesh",
  "When distributing with attributes, every attribute and every mesh set of the global mesh exists on each rank with the same name, type and dimension, each local copy (owned or ghost) of an entity carries exactly the global value, and the members of each set over all ranks are exactly the members of the global set.",
  ["inputs", "configurations"], "all attribute types, entity types and sets, meshes and rank counts",
  "One test distributes one attribute.",
  ["src/par/MESH_CopyAttr.c", "src/par/MESH_CopySet.c", "src/par/MESH_Send_Attribute.c", "src/par/MESH_Recv_Attribute.c", "src/par/MESH_Send_MSet.c", "src/par/MESH_Recv_MSet.c"], [("attribute/set copy and transfer", "src/par")])
# ------------------------------------------------------------- utilities
p("P13", "A distributed mesh stays consistent when entities are deleted and restored",
  "After any deletion of elements and of entities left without elements on the ranks of a distributed mesh (an element with all its copies, or only a ghost copy on one rank, for good or kept and restored later), ghost and overlap lists hold exactly the live ghost and overlap entities, lookups by ID find exactly the live entities, restored entities are back in all lists they were in, and attribute update, gather-scatter, coordinate update and global renumbering move the same values between the remaining copies as they did before.",
  ["histories", "inputs", "schedules"], "all meshes, partitions, choices of entities deleted and restored on each rank, and later operations",
  "No test deletes anything from a distributed mesh.",
  ["src/base/Mesh.c", "src/base/MRegion.c", "src/base/MFace.c", "src/par/MESH_ParallelAdj.c"], [("removal from and addition to ghost and overlap lists", "src/base/Mesh.c")])
p("U01", "Command line tools do what the library does",
  "The mesh conversion, generation, tet-to-hex and tri-to-quad tools write files which, read back, contain exactly the mesh requested or the converted input mesh, in every documented format; the attribute tool adds exactly the given attributes and sets to an Exodus II file and changes nothing else; the checking tool accepts every valid mesh file and rejects native files of meshes with inside-out elements. (Runs on one process; vizpart is not covered.)",
  ["inputs"], "all valid inputs and options",
  "The tools have no tests.",
  ["utils/meshconvert/src", "utils/mkstruc/src", "utils/chkmesh/src", "utils/tet2hex/src", "utils/tri2quad/src", "utils/exoatt/src"], [("tool mains", "utils")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
