import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Ordered lists behave as sequences under any history of edits",
 "A list always holds exactly the sequence obtained by replaying the insertions, removals, replacements, concatenations, compressions and copies that were applied to it: counts, membership, positions, indexed access and forward iteration all agree with that sequence. Removal while iterating neither skips nor repeats surviving entries, and no operation touches memory outside the list.",
 ["histories","inputs"],"every history of list operations up to a length bound, with any operands and positions","the tests only use lists incidentally; no history mixing removal gaps, compression, insertion and concatenation is exercised",
 ["src/util/List.c","include/List.h"],[("lazy removal with gap bookkeeping and compression","src/util/List.c")],[("list","entries, count, removed-entry gaps","src/util/List.c")])
p("C02","Entity sets implement set algebra and keep their identity",
 "Named entity sets contain exactly the entities added and not removed; union, intersection and difference of two sets of a mesh contain exactly the entities of the mathematical operation with no duplicates, leave the operands unchanged, and report empty intersections and differences as such. Editing a set hands back the same set, and sets can be found by name for as long as they exist.",
 ["inputs","histories"],"every pair of sets over the entities of a mesh up to a size bound and every history of edits up to a length bound","no test computes a union, intersection or difference",
 ["src/base/MSet.c","src/base/Mesh.c"],[("set operations over an entity list","src/base/MSet.c"),("registration with the mesh","src/base/Mesh.c")])
p("C03","Entity properties are stored independently and faithfully",
 "Every property of a mesh entity (local ID, global ID, classification dimension and ID, parallel type, owning partition, deleted state, representation) returns the value last set within its documented range, and setting one property or changing the entity's adjacency never alters another.",
 ["inputs","histories"],"all values of all properties, all orders of setting them","tests set a handful of small values; packed header fields can collide only for particular bit patterns",
 ["src/base/MEntity.c","include/MEntity.h","src/base/MVertex.c","src/base/MEdge.c","src/base/MFace.c","src/base/MRegion.c"],[("packed entity header","include/MEntity.h")])
p("C04","Attribute values are returned exactly and only where set",
 "An attribute of any type attached to any entity returns exactly the value last set for that entity, reports absence where it was never set or was removed, reads as zero or null after being cleared, and is unaffected by values on other entities or of other attributes. Attributes are found by name while they exist, their declared type, rank and component count are preserved, and removing, clearing or deleting one never corrupts another.",
 ["histories","inputs"],"every history of attribute definition, setting, clearing and deletion up to a bound, with arbitrary values","one test sets and reads a few attributes in one order",
 ["src/base/MAttrib.c","src/base/MEntity.c","src/base/Mesh.c"],[("per-entity attribute instance list","src/base/MEntity.c")])
p("C05","Entity counts, iteration and ID look-up stay consistent",
 "After any sequence of entity creation, deletion, renumbering and ID changes, a mesh reports exactly its live entities: counts, positional access and iteration visit each live entity once, and look-up by ID or by global ID returns an entity carrying that ID or nothing, never a deleted entity. Newly created entities receive IDs no live entity holds.",
 ["histories","inputs"],"every history of create/delete/re-ID/renumber up to a length bound, with arbitrary IDs","tests build meshes once and never look up IDs after deletions or ID changes",
 ["src/base/Mesh.c","src/base/MVertex.c","src/base/MEdge.c","src/base/MFace.c","src/base/MRegion.c","src/hilev/MESH_Renumber.c"],[("entity lists, ID look-up and cached maxima","src/base/Mesh.c")])
p("C06","Upward and downward adjacencies are reciprocal",
 "In every representation, one entity lists another as adjacent exactly when the reverse query lists the first, for every pair of entity kinds the representation supports; adjacency lists contain no duplicates, no deleted entities, and agree with the derived yes/no queries (uses, directions, counts, other-side queries).",
 ["inputs","configurations","histories"],"every small mesh built from arbitrary vertex choices, in each representation, in any construction order","tests check adjacencies of one hard-coded element in the full representation only",
 ["src/base/MVertex_F1.c","src/base/MVertex_F4.c","src/base/MVertex_R1.c","src/base/MVertex_R2.c","src/base/MVertex_R4.c","src/base/MEdge_F1.c","src/base/MEdge_F4.c","src/base/MFace_F1.c","src/base/MFace_F4.c","src/base/MFace_R1.c","src/base/MFace_R2.c","src/base/MFace_R4.c","src/base/MRegion_F1.c","src/base/MRegion_F4.c","src/base/MRegion_R1.c","src/base/MRegion_R2.c","src/base/MRegion_R4.c"],[("stored and derived adjacency per representation","src/base")])
p("C07","Adjacency answers do not depend on the mesh representation",
 "The same mesh built in any supported representation answers every supported adjacency query (which entities, how many, in which cyclic order and relative direction) identically up to naming of entities, and converting or copying between representations preserves them.",
 ["configurations","inputs"],"all representations times all small meshes over arbitrary vertex choices","tests run nearly everything in the default full representation",
 ["src/base","src/base/MEdge_R1.c","src/base/MFace_R1.c","src/base/MR_Face_Funcs_R1.c","src/base/MF_Vertex_Funcs_R4.c"],[("per-representation jump tables","include")])
p("C08","Standard elements follow the documented vertex, edge and face ordering",
 "A tetrahedron, pyramid, prism or hexahedron created from vertices returns those vertices in the same order, has the element type, face and edge counts of that shape, and lists faces and edges with the documented template connectivity and outward orientation; faces return their vertices and edges in consistent cyclic order from any starting vertex in either direction.",
 ["inputs"],"any assignment of vertices to element corners, any starting vertex and direction, each element and face type, presence of any already existing faces and edges with any orientation","tests check single elements with edges and faces in one fixed numbering",
 ["src/base/MR_Vertex_Funcs_FNR3R4.c","src/base/MR_Edge_Funcs_FN.c","src/base/MR_Face_Funcs_FNR3R4.c","src/base/MF_Vertex_Funcs_F1F3.c","src/base/MF_Edge_Funcs_F1F3.c","include/MSTK_globals.h"],[("element templates","include/MSTK_globals.h")])
p("C09","Low-level topology edits keep both sides of every adjacency in step",
 "Replacing, removing, inserting or reversing the bounding entities of an edge, face or region changes exactly the addressed incidence: order and directions of the others are preserved, and the former and new bounding entities' upward adjacencies reflect the change.",
 ["inputs","histories"],"any entity and any position edited, in any polygon or polyhedron up to a size bound","one removal each is tested on one fixed polygon and polyhedron",
 ["src/base/MF_Edge_Funcs_F1F3.c","src/base/MR_Face_Funcs_FNR3R4.c","src/base/MEdge.c","src/base/MFace.c","src/base/MRegion.c"],[("replace/remove/reverse operations","src/base")])
p("C10","Deletion detaches exactly the deleted entity and restore undoes it",
 "Deleting an entity removes it from the mesh and from the upward adjacency of everything it bounded, leaves every other entity and adjacency untouched, and releases its memory unless it is kept; an entity deleted with keep can be restored to exactly its former ID, data and adjacencies, and to the ghost or overlap list it was in.",
 ["histories","inputs"],"any entity of any small mesh, any order of deletions and restorations","no test restores an entity or checks what remains after deleting one",
 ["src/base/MVertex.c","src/base/MEdge.c","src/base/MFace.c","src/base/MRegion.c","src/base/Mesh.c"],[("delete/restore per representation","src/base")])
p("C11","Splitting edges and faces preserves a valid mesh",
 "Splitting an edge at a point or a face by an edge between two of its vertices replaces exactly that entity by the expected pieces, keeps the mesh topologically valid with correct incidence in all neighbouring faces and regions, and transfers classification to the new entities.",
 ["inputs"],"any edge, any pair of face vertices, any small mesh of any element shape","tests split one edge or face of one mesh and check counts",
 ["src/mod/ME_Split.c","src/mod/ME_MultiSplit.c","src/mod/MF_Split.c","src/mod/MF_Split_with_Edge.c"],[("split operators","src/mod")])
p("C12","Splits of simplicial meshes stay simplicial and conforming",
 "Splitting an edge or a face of a triangle or tetrahedral mesh with the simplex operators yields a valid mesh made only of simplices, covering the same cells, with the expected entity counts and every neighbour of the split entity subdivided.",
 ["inputs"],"any interior or boundary edge or face of any small simplicial mesh, any vertex numbering","tests split one fixed edge and one fixed face",
 ["src/mod/ME_Split_SimplexMesh.c","src/mod/MF_Split_SimplexMesh.c"],[("simplex split operators","src/mod")])
p("C13","Joining and splitting cells preserves their common boundary",
 "Joining two faces across an edge, or two regions across a face, yields one cell bounded by exactly the union of their boundaries minus the common part; splitting a region along a loop of edges yields two regions that share exactly the new face; joining back restores the original incidence.",
 ["inputs"],"any pair of neighbouring cells and any separating edge loop in small meshes, with any numbering and orientation","no test joins faces or regions or splits a region",
 ["src/mod/MFs_Join.c","src/mod/MRs_Join.c","src/mod/MR_Split_with_EdgeLoop.c"],[("join and region split operators","src/mod")])
p("C14","Merging entities preserves incidence",
 "Merging two vertices, two edges or two faces leaves a single entity that inherits the upward adjacencies of both, removes the other from the mesh, and refuses (changing nothing) when the requested merge is not permitted by classification.",
 ["inputs"],"any mergeable pair in small meshes of each representation, any orientation","no test merges entities",
 ["src/mod/MVs_Merge.c","src/mod/MVs_Merge_FN.c","src/mod/MEs_Merge.c","src/mod/MEs_Merge_FN.c","src/mod/MFs_Merge.c","src/mod/MFs_Merge_FN.c"],[("merge operators","src/mod")])
p("C15","Edge collapse keeps the mesh valid and reports what it deleted",
 "Collapsing an edge whose contraction leaves a valid mesh either fails and leaves the mesh unchanged (when the constraints do not permit it), or succeeds and leaves a topologically valid mesh without degenerate or duplicate cells in which the edge and the removed vertex are gone, the kept vertex inherits the surroundings, requested vertex and topological constraints are honoured, and exactly the deleted entities are reported.",
 ["inputs"],"any edge of any small triangle, quad or tetrahedral mesh, any classification pattern, constraint flag and kept vertex","one multi-collapse test on one large mesh checks final validity only",
 ["src/mod/ME_Collapse.c","src/mod/MEs_Merge.c","src/mod/MFs_Merge.c"],[("collapse operator","src/mod/ME_Collapse.c")])
p("C16","Swapping an edge between two triangles is valid and reversible",
 "Swapping a swappable edge replaces the two triangles by the two triangles of the other diagonal with consistent orientation and classification, leaves every other entity unchanged, refuses when the configuration does not permit it, and swapping again restores the original connectivity.",
 ["inputs"],"any edge of any small surface mesh with any orientation and classification","no test swaps an edge",
 ["src/mod/ME_Swap2D.c"],[("swap operator","src/mod/ME_Swap2D.c")])
p("C17","Native files round-trip the mesh",
 "Writing a mesh to the native format and reading it back reproduces every entity with its order, connectivity, classification and attributes, and coordinates to the written precision, for every representation it can be written in; reading never accepts a file as something other than what was written.",
 ["inputs","configurations"],"any small mesh with arbitrary coordinates, classification and attribute values, each source and target representation","no test writes the native format and compares the result",
 ["src/base/MESH_WriteToFile.c","src/base/MESH_InitFromFile.c"],[("native writer and reader","src/base")])
p("C18","Exported exchange files describe the mesh",
 "Files exported to GMV, FLAG X3D, OFF and STL list exactly the mesh's vertices and cells with correct counts, with connectivity in the node order and numbering the format prescribes (from one in GMV and X3D, from zero in OFF); exporting leaves the mesh as it was, and re-importing GMV and X3D files reproduces vertices, cells, cell connectivity and cell attributes.",
 ["inputs","configurations"],"any small surface or solid mesh with arbitrary coordinates, IDs and element types","no test exports or imports any of these formats",
 ["src/io/MESH_ExportToGMV.c","src/io/MESH_ExportToFLAGX3D.c","src/io/MESH_ExportToOFF.c","src/io/MESH_ExportToSTL.c","src/io/MESH_ImportFromGMV.c","src/io/MESH_ImportFromFLAGX3D.c","src/io/MESH_ExportToFile.c","src/io/MESH_ImportFromFile.c"],[("exporters and importers","src/io")])
p("C19","Exodus II files round-trip mesh, blocks, sets and variables",
 "Writing a mesh to the Exodus II format and reading it back reproduces vertices, cells of every type, block membership, entity sets and attribute values.",
 ["inputs","configurations"],"any small mesh of any element mix with arbitrary coordinates, material IDs, sets and attributes","tests round-trip a few fixed meshes with one block pattern each",
 ["src/io/MESH_ExportToExodusII.c","src/io/MESH_ImportFromExodusII.c","src/io/MESH_ReadExodusII_Serial.c"],[("Exodus writer and reader","src/io")])
p("C20","Structured generation builds the requested grid",
 "Generating a structured mesh with given corner coordinates and cell counts yields exactly the grid's vertices, edges, faces and regions with valid topology, outward orientation, coordinates interpolating the corners, and classification onto the box's vertices, edges, faces and interior.",
 ["inputs"],"all small cell counts in each direction and all corner coordinates, each representation","tests use generated meshes but check only a count or two",
 ["src/hilev/MESH_Gen_Structured.c"],[("2D and 3D generators","src/hilev/MESH_Gen_Structured.c")])
p("C21","Building from a general description yields exactly the described mesh",
 "Building a mesh from arrays of points and cell connectivity produces exactly those points and cells with the given connectivity, standard cells recognised, and shared faces and edges created once; descriptions it does not support are refused.",
 ["inputs"],"any small connectivity description of 2D or 3D cells, with or without face templates","no test uses this entry point",
 ["src/hilev/MESH_InitFromGenDesc.c"],[("general description builder","src/hilev/MESH_InitFromGenDesc.c")])
p("C22","Copying a mesh yields an equal, independent mesh",
 "A copied mesh has the same entities, order, connectivity, coordinates, classification, attributes and sets as its source, optionally in another representation, and changing or deleting either one leaves the other untouched.",
 ["inputs","configurations"],"any small mesh with arbitrary data, every pair of representations, with and without attributes and sets","no test copies a mesh",
 ["src/base/MESH_Copy.c"],[("mesh copy","src/base/MESH_Copy.c")])
p("C23","Derived classification is consistent with cell classification",
 "When classification of lower-dimensional entities is derived, every entity gets a classification dimension and ID consistent with its neighbours: interior entities inherit their cell's model region, boundary and interface entities get lower-dimensional model entities, no entity is classified on a dimension lower than its own, and entities separated by no feature share the same model entity.",
 ["inputs"],"any small mesh, any assignment of cells to model regions, with and without geometric feature detection","tests never check derived classification values",
 ["src/hilev/MESH_BuildClassfn.c","src/hilev/MESH_BuildFaceClassfn.c","src/hilev/MESH_BuildEdgeClassfn.c","src/hilev/MESH_BuildVertexClassfn.c"],[("classification builders","src/hilev")])
p("C24","The mesh checker accepts valid meshes and rejects broken ones",
 "The topology checker reports success on every valid, fully classified mesh and failure on a mesh in which an adjacency, orientation or classification relation it documents is violated, without modifying the mesh.",
 ["inputs"],"any small valid mesh and any single corruption of it","tests only call it on valid meshes",
 ["src/hilev/MESH_CheckTopo.c"],[("checker","src/hilev/MESH_CheckTopo.c")])
p("C25","Renumbering is a permutation and sorting sorts",
 "Renumbering the entities of a mesh, sequentially or by bandwidth reduction, assigns the IDs 1..n bijectively to the live entities and changes nothing else; the graph-reordering and sorting helpers return permutations of their input, sorted where promised.",
 ["inputs"],"any small mesh or graph, connected or not, any prior numbering with gaps","no test renumbers with reverse Cuthill-McKee or checks the result is a permutation",
 ["src/hilev/MESH_Renumber.c","src/util/Graph_renumber.c","src/util/mstk_quicksort.c"],[("renumbering","src/hilev/MESH_Renumber.c"),("graph ordering","src/util/Graph_renumber.c")])
p("C26","The element graph lists exactly the face-neighbour pairs",
 "The element adjacency graph extracted from a mesh has one entry per cell, offsets that are monotone and consistent with the entries, and lists cell j for cell i exactly when the two share a side; it is symmetric and has no self loops.",
 ["inputs"],"any small 2D or 3D mesh, with or without ghosts","tests compare one fixed mesh against stored arrays",
 ["src/hilev/MESH_GetElementGraph.c"],[("graph extraction","src/hilev/MESH_GetElementGraph.c")])
p("C27","Element-type conversions tile the original cells",
 "Converting triangles to quadrilaterals or tetrahedra to hexahedra yields a valid conforming mesh consisting only of the target type, with the expected number of cells per original cell, sharing new vertices across shared edges and faces, its vertices and cells inheriting classification, and the source unchanged; other meshes are refused. Deleting the interior of a classified mesh leaves exactly its boundary.",
 ["inputs"],"any small simplicial mesh with any numbering and classification","no test converts a mesh",
 ["src/hilev/MESH_Tet2Hex.c","src/hilev/MESH_Tri2Quad.c","src/hilev/MESH_DelInterior.c"],[("conversion","src/hilev")])
p("C28","Geometric queries agree with the geometry",
 "Lengths, coordinate extraction, angles, dihedral angles, vector helpers, element quality and condition numbers agree with their geometric definitions, are invariant under the symmetries of the definition, and orientation-sensitive values flip sign when orientation flips.",
 ["inputs"],"all integer-valued coordinates in a range, all orderings of the same entity","one test compares one dihedral angle",
 ["src/base/ME_Geometry.c","src/hilev/MEs_Angle.c","src/hilev/MFs_DihedralAngle.c","src/misc/MSTK_VecFuncs.c","src/misc/MF_CondNums.c","src/hilev/MF_Coords.c","src/hilev/MR_Coords.c"],[("geometry functions","src")])
p("C29","Implicit entities in reduced representations are unique and never leak",
 "In reduced representations, queries that produce implicit edges or faces return the same object for the same bounding vertices while it is alive, distinct objects otherwise, with the queried relations holding, and all implicit entities are released with the mesh; the underlying hash tables find exactly what was added and not removed across growth and deletion.",
 ["histories","inputs"],"any sequence of queries over any small reduced mesh, any key pattern including collisions and table growth","tests never hold implicit entities across queries or grow the tables",
 ["src/util/Hash.c","src/base/MEdge_R1.c","src/base/MFace_R1.c","src/base/ME_Face_Funcs_R1R2.c","src/base/Mesh.c"],[("hash of implicit entities keyed by vertices","src/util/Hash.c")])
p("C30","Every mesh life cycle is memory-safe and leak-free",
 "Creating, filling, querying, modifying, reading, writing and deleting meshes never reads or writes invalid or uninitialised memory, never frees twice, and after the mesh and the objects the caller owns are deleted no memory obtained by the library remains.",
 ["histories","inputs","configurations"],"any bounded life cycle over each representation with arbitrary data","tests do not run under a memory checker and never compare allocations",
 ["src/base/Mesh.c","src/base/MEntity.c","src/base/MAttrib.c","src/base/MSet.c","src/util/List.c"],[("delete functions","src/base")])
p("C31","Partitioning covers the mesh for any partition vector",
 "Given any assignment of cells to partitions, every partition's submesh contains exactly the cells assigned to it plus their closure and the requested ghost layers, with shared vertices, edges and faces identified across partitions by global ID and every entity owned by exactly one partition.",
 ["inputs","configurations"],"any partition vector over any small mesh, including empty and disconnected partitions, with 0 or 1 ghost layers","tests use whatever the partitioner returns for one mesh",
 ["src/par/MESH_Partition.c","src/par/MESH_BuildSubMesh.c","src/par/MESH_AddGhost.c","src/par/MESH_BuildPBoundary.c","src/par/MESH_AssignGlobalIDs_point.c"],[("submesh construction","src/par")])
p("C32","Distribution delivers each partition intact",
 "After distributing a mesh over processes, each process holds exactly its partition with ghost layers, coordinates, connectivity, classification, attributes and sets equal to the source by global ID, and the exchange completes without deadlock or mismatched messages however messages are buffered.",
 ["inputs","configurations","schedules"],"any partition vector of any small mesh over 2 or 3 processes, arbitrary coordinates and attribute values, eager or rendezvous message passing","tests run one schedule on one mesh per partitioner",
 ["src/par/MSTK_Mesh_Distribute.c","src/par/MESH_Partition_and_Send.c","src/par/MESH_SendMesh.c","src/par/MESH_RecvMesh.c","src/par/MESH_Send_NonVertexEntities.c","src/par/MESH_Recv_NonVertexEntities.c"],[("send/receive protocol","src/par")])
p("C33","Weaving independently built pieces reconstructs shared entities",
 "Weaving meshes built separately on each process identifies coincident boundary entities across processes, gives each the same global ID everywhere and a single owner, gives distinct entities distinct global IDs, and adds the requested ghost layers with matching connectivity.",
 ["inputs","schedules"],"any small mesh cut into any pieces over 2 or 3 processes, with or without preset global IDs","tests weave two fixed decompositions",
 ["src/par/MSTK_Weave_DistributedMeshes.c","src/par/MESH_AssignGlobalIDs.c","src/par/MESH_BuildConnection.c","src/par/MESH_LabelPType.c","src/par/MESH_Parallel_AddGhost.c"],[("weave","src/par")])
p("C34","Ghost data equals the owner's data after every exchange",
 "After attribute update, vertex coordinate update, gather-scatter or edge/face exchange, every ghost or shared copy holds exactly the value the operation defines from the owner's (or all copies') values, owners' values are not disturbed where the operation says so, and non-participating data is unchanged.",
 ["inputs","schedules"],"arbitrary attribute values of every type on every entity kind, any small distributed mesh, repeated exchanges","tests use one value pattern on one decomposition",
 ["src/par/MESH_UpdateAttributes.c","src/par/MESH_Update1Attribute.c","src/par/MESH_GathScat1Attribute.c","src/par/MESH_UpdateVertexCoords.c","src/par/MESH_XchngEdgeFaceAttrib.c"],[("exchange routines","src/par")])
p("C35","Global renumbering is a consistent bijection across processes",
 "Renumbering global IDs of a distributed mesh yields IDs that are contiguous from 1 over owned entities of all processes, the same on every copy of an entity, and distinct for distinct entities.",
 ["inputs","schedules"],"any small distributed mesh over 2 or 3 processes, each entity kind, any prior global IDs","one test on one mesh",
 ["src/par/MESH_Renumber_GlobalIDs.c","src/par/MESH_AssignGlobalIDs_point.c"],[("global renumbering","src/par/MESH_Renumber_GlobalIDs.c")])
p("C36","The parallel checker agrees with the state of the distributed mesh",
 "The parallel consistency checker reports success on every correctly distributed mesh and failure when an entity's ownership, type, global ID, coordinates or connectivity disagrees between processes.",
 ["inputs"],"any small distributed mesh and any single corruption","tests only call it on correct meshes",
 ["src/par/MESH_Parallel_Check.c"],[("checker","src/par/MESH_Parallel_Check.c")])
p("C37","Marks are private to their marker",
 "In the marker-enabled configuration, an entity is marked with a marker exactly when it was marked with it and not unmarked since; distinct live markers never interfere, and markers can be obtained and released repeatedly up to the documented number.",
 ["histories","configurations"],"any history of obtaining, using and releasing markers up to a bound","markers are off in the tested build",
 ["src/base/MEntity.c","src/base/MSTK.c","src/util/List.c"],[("marker bits and registry","src/base/MEntity.c")])
p("C38","Degenerate and mixed cells are stored as what their distinct vertices define",
 "Regions and faces built from repeated vertices or general polygons and polyhedra are stored as the cells their distinct vertices define, report the matching element type, and are traversed consistently.",
 ["inputs"],"any choice of coinciding corners of a standard element and any polygon or polyhedron up to a size bound","one fixed degenerate mesh is tested",
 ["src/base/MR_Face_Funcs_FNR3R4.c","src/base/MRegion.c","src/base/MFace.c"],[("element type detection","src/base")])
p("C39","Command-line converters preserve the mesh they convert",
 "The command-line tools convert, check, partition for viewing and merge attributes of mesh files without changing mesh content beyond what was asked.",
 ["inputs","configurations"],"any mesh file and any option combination","the tools have no tests",
 ["utils/meshconvert","utils/exoatt","utils/chkmesh","utils/mkstruc","utils/vizpart"],[("tool main programs","utils")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P), [x["id"] for x in P if len(x["title"])>80])
