"""How each property is checked: program, number of cases (quick, thorough), what a case is."""
GEN = ("random mesh (2D: quads, triangles, mixtures, polygons; 3D: hexes, tets, prisms, pyramids, mixtures, polyhedra, polygon "
       "columns; with holes, fins, reversed faces, permuted numbering, bent and moved), ")
CONN = "; non-trivial: more than one element; distinct: hash of connectivity, representation and route"
DIST = GEN + "in F1 or F4, distributed over 1-8 ranks in shuffled order by a random (scattered, banded, clustered, lopsided) partitioning or the library's, with 0-2 ghost layers, under injected delays or synchronous sends"
OPS = GEN + "in F1 or F4, distributed or woven on 1-8 ranks with 0-2 ghost layers and 1-5 attributes of all types and dimensions, 2-6 rounds of operations, under injected delays or synchronous sends"
PD = "; non-trivial: more than one rank; distinct: hash of mesh, partitioning and options"
PROPS = {
    "C01": dict(target="s_topo", n=(1200, 30000),
                rule=GEN + "built through either route in F1 or F4 and every adjacency query of every entity compared with the answer computed from "
                "vertex tuples" + CONN),
    "C02": dict(target="s_topo", n=(1200, 30000),
                rule=GEN + "built in F1, F4, R1, R2 or R4 in turn and every query the representation offers, for every entity, compared with the "
                "answer computed from vertex tuples" + CONN),
    "C03": dict(target="s_topo", n=(1400, 30000),
                rule=GEN + "built in F1, F4, R1, R2 or R4 in turn; every face queried with several start vertices and both directions, every region "
                "face direction and template order compared with outward cycles of the model" + CONN),
    "C07": dict(target="s_util", n=(2000, 40000), rule="random history of attribute definition, setting, clearing and removal over all value types and entity dimensions on a random mesh, "
                "compared after every step with a table; non-trivial: more than one attribute with values; distinct: hash of the history"),
    "C08": dict(target="s_util", n=(2000, 40000), rule="random history of set operations compared with a model of ordered lists without duplicates; non-trivial: sets with elements; distinct: hash of the history"),
    "C09": dict(target="s_util", n=(1500, 50000), rule="random history of list operations (with gaps left by removals, iteration during removal, sorted removal, large lists) compared with a vector; "
                "non-trivial: at least one removal; distinct: hash of the history"),
    "C04": dict(target="s_life", n=(1000, 40000), rule=GEN + "built entity by entity in F1, F4, R1, R2 or R4, then a random history of deletions (top down, while iterating, of everything) and "
                "re-creations through every route; after every batch the whole mesh is compared with the model of what is alive; non-trivial: more than two successful operations; distinct: hash of model and history"),
    "C05": dict(target="s_life", n=(1600, 40000), rule=GEN + "in F1 or F4; random histories of deletions with keep, restorations, permanent deletions of kept entities and re-creations, and whole-mesh take-away/restore rounds; "
                "non-trivial: more than two successful operations; distinct: hash of model and history"),
    "C06": dict(target="s_life", n=(1200, 40000), rule=GEN + "random histories of creation, deletion, keep/restore, MEnt_Set_ID, MESH_Renumber and MESH_Enable_LocalIDSearch with lookups of live, kept and absent IDs of every dimension in between, and of global IDs given at random points with the search left on through later changes; "
                "non-trivial: more than two successful operations; distinct: hash of model and history"),
    "C10": dict(target="s_mod", n=(1600, 40000), rule=GEN + "in F1 with random classification; random sequences of ME_Split, ME_MultiSplit, MF_Split, MF_Split_with_Edge, MR_Split_with_EdgeLoop, or of ME_Split_SimplexMesh and "
                "MF_Split_SimplexMesh on triangle and tetrahedral meshes; after each the whole mesh (connectivity, orientation, classification, coordinates) is compared with the same operation on a plain model, at the end every "
                "adjacency query; non-trivial: at least one split; distinct: hash of model and history"),
    "C11": dict(target="s_mod", n=(1000, 30000), rule=GEN + "in F1; either cut in two along a random group of elements and glued by MVs_Merge, MEs_Merge, MFs_Merge in random order with refusals, or random sequences of ME_Collapse whose result "
                "is a proper mesh, compared with the same operation on a plain model (mesh, deleted entities, merged pairs, mesh sets, preferences); non-trivial: glued or collapsed something; distinct: hash of model and history"),
    "C12": dict(target="s_mod", n=(1600, 40000), rule=GEN + "in F1; random sequences of MFs_Join, MRs_Join (and splitting again) or of ME_Swap2D, and of joins that must be refused, compared with the same operation on a plain model, at the end every adjacency query; "
                "non-trivial: something was joined or swapped; distinct: hash of model and history"),
    "C13": dict(target="s_io", n=(640, 20000), rule=GEN + "in F1, F4, R1, R2 or R4 with random classification, gaps from deletions and attributes of all types on all dimensions; written and read back as the same or another "
                "representation; the mesh read is compared entity by entity, in order, with the one written, and every adjacency query with vertex tuples; non-trivial: more than one element; distinct: hash of model, representations and attributes"),
    "C14": dict(target="s_exo", n=(900, 30000), rule=GEN + "either put in an Exodus II file by an independent writer (blocks of all element types, node, side and element sets, variables, maps) and read by the library in F1, F4, R1 or R2, "
                "or written by the library with random options, attributes and sets, read by an independent reader and by the library again; everything in the file compared with the model; "
                "non-trivial: more than one element; distinct: hash of file and representations"),
    "C15": dict(target="s_fmt", n=(700, 30000), rule=GEN + "in F1, F4 (and R1, R2 where the format allows) with random materials, attributes, sets and deletions; GMV and FLAG X3D files written by the library and read by an "
                "independent parser, or written independently in every layout the format allows and read by the library; every vertex, cell boundary, direction, neighbour, material, field and set compared; "
                "non-trivial: more than one cell; distinct: hash of mesh, layout and fields"),
    "C16": dict(target="s_fmt", n=(2000, 40000), rule=GEN + "with gaps in numbering and random coordinates; STL, OFF and binary DX files written by the library and decoded independently; every facet, normal, vertex and element compared; "
                "non-trivial: more than one cell; distinct: hash of mesh and format"),
    "C17": dict(target="s_misc", n=(1000, 30000), rule=GEN + "in F1, F4, R1 or R2 with classification, attributes of all types and deletions; copied into a new mesh of the same or another representation; copy compared with the original entity by entity and by every adjacency query, and the original compared with itself; "
                "non-trivial: more than one element; distinct: hash of mesh and representations"),
    "C18": dict(target="s_misc", n=(1600, 30000), rule="structured 2D and 3D grids of random extents, origins and sizes in every representation; every vertex coordinate, element, orientation, volume and classification compared with the closed form; "
                "non-trivial: more than one element; distinct: hash of the grid"),
    "C19": dict(target="s_misc", n=(1600, 40000), rule=GEN + "in F1 or F4 with random region labels, labelled faces, isolated vertices, deletions, with and without geometry; classification of every entity compared with rules evaluated on incidence read from the mesh; "
                "non-trivial: more than one element; distinct: hash of mesh and labels"),
    "C20": dict(target="s_misc", n=(1200, 30000), rule=GEN + "with gaps, isolated vertices, several components; renumbered sequentially or by bandwidth, for one entity type or all; IDs must be a permutation of 1..n, the bandwidth must not grow, and everything else about the mesh stays; "
                "non-trivial: more than one element; distinct: hash of mesh and options"),
    "C22": dict(target="s_misc", n=(1600, 40000), rule=GEN + "including elements with many neighbours, several components and non-manifold surfaces; every row of the graph compared with the adjacency of the model; "
                "non-trivial: more than one element; distinct: hash of the mesh"),
    "C23": dict(target="s_chk", n=(2500, 40000), rule=GEN + "in F1 and F4, unclassified, classified by the library or by an independent classifier; the checker must accept them and leave them unchanged; then, one at a time, 17 kinds of harm (links missing or foreign, wrong face and edge "
                "directions, degenerate edges, impossible classification of vertices, edges and faces) must be reported, without crashing, and the mesh be accepted again after the harm is undone; non-trivial: more than one face; distinct: hash of mesh, representation and classification"),
    "C25": dict(target="s_misc", n=(1200, 30000), rule="tetrahedral, triangle and mixed meshes refined to hexahedra or quadrilaterals, or stripped of their interior; number, coordinates, connectivity, volume, classification compared with an independent construction; refusals must leave the input as it was; "
                "non-trivial: more than one element; distinct: hash of the mesh"),
    "C26": dict(target="s_misc", n=(1600, 40000), rule=GEN + "with random coordinates; coordinates, lengths, angles and dihedral angles compared with an independent calculation; "
                "non-trivial: more than one element; distinct: hash of the mesh"),
    "C29": dict(target="s_misc", n=(1600, 40000), rule=GEN + "described as arrays and built in F1, F4, R1 or R2; entities compared with the description in order and by every adjacency query; descriptions it does not support must be refused; "
                "non-trivial: more than one element; distinct: hash of description and representation"),
    "C30": dict(target="s_mod", n=(1600, 40000), rule=GEN + "in F1 or F4; random sequences of replacing runs of edges in all faces around them, faces of regions by finer, coarser or equal ones, taking faces away and adding them again, editing scratch faces and edges, "
                "compared with the same operation on a plain model, at the end every adjacency query; non-trivial: more than one operation; distinct: hash of model, representation and history"),
    "P01": dict(runner="par", target="p_dist", n=(1500, 20000), rule=DIST + "; every element must be owned by exactly one rank, the one the partitioning says, and every rank must hold its own elements, the requested layers of "
                "vertex-connected ghosts and exactly the entities that bound them, with connectivity, orientation, classification and coordinates of the whole mesh" + PD),
    "P02": dict(runner="par", target="p_dist", n=(1500, 20000), rule=DIST + "; all copies of an entity have one global ID, different entities different ones, the IDs are 1..n, and lookup by global ID finds exactly the entities a rank holds" + PD),
    "P03": dict(runner="par", target="p_dist", n=(1500, 20000), rule=DIST + "; of all copies of an entity exactly one is owned, the others are ghosts naming the owner as master; owned entities with copies are overlap, without are interior; the ghost "
                "and overlap lists, counts and indexed access hold exactly those entities" + PD),
    "P10": dict(runner="par", target="p_dist", n=(900, 15000), rule=GEN + "columns of hexes, prisms and polyhedra, and many faces about one edge, divided in 1-8 parts by Metis, Zoltan graph and Zoltan RCB; every element gets a part in range; larger connected meshes "
                "have no empty part and an edge cut well below that of a random division; columns stay whole with RCB; distributing by the method puts every element where the partitioning says; non-trivial: more elements than parts, more than one part; distinct: hash of mesh, parts and method"),
    "P12": dict(runner="par", target="p_dist", n=(1200, 15000), rule=DIST + " with 0-6 attributes of all types and dimensions and 0-5 entity sets (also empty, full and of all dimensions); every value and every set membership on every copy on every rank compared with the whole mesh, "
                "which is compared with itself; also distributed twice; non-trivial: several ranks and at least one attribute or set; distinct: hash of mesh, partitioning and values"),
    "P13": dict(runner="par", target="p_ops", n=(900, 12000), rule=OPS + "; one to four rounds of deletion on every rank (elements with all their copies, ghosts on one rank, entities left without elements; or elements kept and restored in any order), lists and lookups by ID judged on every rank, then updates, gather-scatters, coordinate updates and renumberings compared with the table on rank 0" + PD),
    "P04": dict(runner="par", target="p_ops", n=(900, 12000), rule=OPS + "; values given, changed and removed on every copy on every rank, then MESH_UpdateAttributes or MESH_Update1Attribute; every value of every copy on every rank compared with a table kept on rank 0" + PD),
    "P05": dict(runner="par", target="p_ops", n=(900, 12000), rule=OPS + "; different values on every copy, then MESH_GathScat1Attribute with each operator; every value of every copy on every rank compared with a table kept on rank 0" + PD),
    "P06": dict(runner="par", target="p_ops", n=(1000, 15000), rule=GEN + "manifold, cut into 2-8 parts that are built separately, shuffled, in F1 or F4, given nothing, sparse shuffled vertex global IDs or the neighbouring ranks, 0-1 ghost layers, under injected delays or synchronous sends; every rank's entities, "
                "statuses, owners, global IDs and ghost lists compared with the whole mesh" + PD),
    "P07": dict(runner="par", target="p_ops", n=(900, 12000), rule=OPS + "; coordinates moved differently on every rank then MESH_UpdateVertexCoords, or MESH_XchngEdgeFaceAttrib on edges (2D) or faces (3D); every coordinate and value on every rank compared with a table kept on rank 0" + PD),
    "P08": dict(runner="par", target="p_ops", n=(900, 12000), rule=OPS + "; MESH_Renumber_GlobalIDs of all or one entity type, with and without the ID lookup enabled, mixed with attribute and coordinate operations; global IDs, ghost lists, lookup and everything else compared" + PD),
    "P11": dict(runner="par", target="p_time", n=(450, 6000), rule=GEN + "manifold, woven or distributed on 2-8 ranks with 0-2 ghost layers, followed by up to six operations (updates, gather-scatter, exchange, coordinates, renumbering) without holding the ranks together in between, run under 2-4 timings "
                "(none, random, one slow rank, one kind of call slowed, synchronous sends); what every rank holds after every step is compared between the runs; every message of the library matched with its receipt by order, type and size, the collective calls of the ranks with each other, "
                "buffers under way watched, and requests and messages left over looked for" + PD),
    "P09": dict(runner="par", target="p_files", n=(600, 9000), rule=GEN + "manifold, distributed by a random partitioning with 0-2 ghost layers, element blocks, node, side and element sets and real-valued attributes, written by all ranks with MESH_ExportToExodusII (.exo and .par names) and read with MESH_ImportFromNemesisI (woven or not, "
                "0-1 ghost layers, renumbered or not); global Exodus II files read on rank 0 and distributed, read in parts on all ranks, or read on rank 0 only; native files read with MSTK_Mesh_Read_Distribute; native files of the parts read back one by one; GMV and X3D files of the parts read on all ranks and woven; "
                "2-8 ranks; elements, connectivity, coordinates, blocks, sets, attribute values, global IDs, statuses and ghost layers of all ranks together compared with the whole mesh" + PD),
    "C21": dict(rule="the workloads of all other serial properties and of the parallel ones, their own oracles muted, run with AddressSanitizer and UndefinedBehaviorSanitizer, some of them under Valgrind (values never set), every allocation of the library recorded with its call chain; at the end of a case, when every mesh, list and entity "
                "the case got was given back, nothing the library allocated may be left (cases with a mesh in a reduced representation: only accesses are judged), every access must be valid and no operation undefined; "
                "non-trivial: as for the property the case comes from; distinct: same",
                parts=[dict(target="s_all", n=(1500, 30000)), dict(target="v_all", n=(160, 3000), valgrind=True, step=10, timeout=400, env=dict(VF_NOTRACK="1")), dict(runner="par", target="p_dist", n=(300, 4000)), dict(runner="par", target="p_ops", n=(250, 4000)),
                       dict(runner="par", target="p_time", n=(100, 1500)), dict(runner="par", target="p_files", n=(200, 3000))]),
    "C28": dict(ubsan=True, rule="in a build with markers (MSTK_USE_MARKERS): random histories of obtaining and freeing up to 32 markers, marking and unmarking entities, lists and sets, and set operations, against sets of marked entities; and the workloads of every other serial and parallel property, judged by their own oracles, "
                "while markers are held with random marks: operations (export, copy, renumbering, classification, checking, set operations, attribute updates) must neither disturb them nor leave marks or markers of their own, no entity of a mesh being deleted may carry a mark of a marker nobody holds, "
                "and at the end no marker is in use; non-trivial: as for the property the case comes from, more than one marker at a time; distinct: hash as there",
                parts=[dict(target="m_all", n=(1500, 30000)), dict(runner="par", target="q_dist", n=(250, 4000)), dict(runner="par", target="q_ops", n=(200, 4000)), dict(runner="par", target="q_time", n=(75, 1500)), dict(runner="par", target="q_files", n=(150, 3000))]),
    "C27": dict(target="race", n=(700, 12000), rule="built with ThreadSanitizer: 2-6 threads issue random sequences of all read-only queries (adjacency, IDs, coordinates, classification, attributes, sets, lookups, checking) on one mesh in F1 or F4, every answer compared with a single thread's and with the model; "
                "2-4 threads run the workloads of the other serial properties on meshes of their own, judged by those properties' oracles; no data race may be reported in library code; non-trivial: more than one element; distinct: hash of meshes, threads and workloads"),
    "U01": dict(target="s_tool", needs=["util_chkmesh", "util_exoatt", "util_meshconvert", "util_mkstruc", "util_tet2hex", "util_tri2quad"], n=(400, 6000), rule=GEN + "written to a file by the library and given to the command line tools meshconvert, mkstruc, tet2hex, tri2quad, chkmesh and exoatt with random options, run as separate processes in a scratch directory; "
                "every file they write compared with what the library gives for the same request (text files byte for byte, Exodus II files entity by entity with attributes and sets) and with counts and shapes worked out independently; chkmesh must accept valid meshes and reject inside-out ones; a request the library refuses must fail; non-trivial: more than one element; distinct: hash of mesh, tool and options"),
    "C24": dict(target="s_redu", n=(6000, 100000), rule=GEN + "in R1, R2 and R4, vertices unclassified or on random model entities; random histories of queries giving edges and faces made on demand (of regions, faces, held faces and vertices), locks, unlocks, automatic locking on and off, objects given back with ME_Delete/MF_Delete, further queries on held objects; "
                "every object got or held is compared with the model (vertices, cycle, kind, mesh, volatile, lock state, same classification every time, reported as the same exactly when the vertices are); and random histories on the table that keeps such objects (adding, finding by key, automatic and asked-for removal of unlocked ones, growth) against a map; "
                "non-trivial: more than one object held / more than four entries; distinct: hash of mesh, representation and history"),
}
