check("C02", "edit histories of 2 operations (3 thorough) out of 10 kinds on two sets over 3 entities after 0..2 initial members; union, intersection, difference and copy of every pair of sets over 3 (4) entities in either order, with removal gaps, mixed entity types and the same set as both operands; creation/deletion histories of length 4 (6) over 4 names; default and marker-enabled configurations",
 [E("h_set.c", e, 60, 900, covers=["end"]) for e in ("h_set_hist", "h_set_alg", "h_set_names")] + [E("h_set.c", "h_set_alg", 60, 900, covers=["end"], defines=["-DMSTK_USE_MARKERS"])])
check("C03", "every field of 5 entities (two vertices, edge, face, region) holds an arbitrary value of its documented range (symbolic), then every sequence of 2 (3) settings of any field of any entity to any value, through the generic and the kind-specific interfaces; 6 kinds of adjacency change; F1, F4, R1, R2 and the marker-enabled configuration",
 [E("h_ent.c", e, 60, 1500, covers=["end"]) for e in ("h_ent_F1", "h_ent_F4", "h_ent_R", "h_ent_adj")] + [E("h_ent.c", "h_ent_F1", 90, 1500, covers=["end"], defines=["-DMSTK_USE_MARKERS"])])
check("C04", "5 attributes (integer, real, vector of 3, tensor of 2, pointer; per-type and all-type) on 4 entities with arbitrary (symbolic) values; every history of 2 (3) set/remove/clear/clear-all/delete/remove-all/create operations from all-set, of 3 (4) operations on two attributes and two entities from empty; deletion of the entities with and without keeping",
 [E("h_att.c", e, 60, 1500, covers=["end"]) for e in ("h_att_hist0", "h_att_hist1", "h_att_ent")])
check("C05", "histories of 3 (4) operations of each entity kind out of creation, deletion with and without keeping, restoring, ID changes to any value (symbolic), global ID changes, renumbering, with and without local and global ID search enabled, from 0..3 initial entities; look-up of every ID",
 [E("h_id.c", e, 90, 1500, covers=["end"]) for e in ("h_id_v", "h_id_e", "h_id_f", "h_id_r", "h_id_v0", "h_id_global")])
check("C10", "every vertex, edge, face or region of 4 (8) small two-dimensional and 2 (5) three-dimensional meshes in F1 and F4, and of a mixed prism-tetrahedron mesh; interior, overlap and ghost entities; the users deleted first, deletion with and without keeping, restoring in reverse order, final deletion of kept entities",
 [E("h_del.c", e, 60, 900, covers=["end"]) for e in ("h_del2_F1", "h_del2_F4", "h_del3_F1", "h_del3_F4", "h_del3m_F1")])

check("C37", "markers enabled; 0..3 markers held at first, then 2 (3) operations of obtaining, marking, unmarking one entity or a list or set (with or without a hole) and releasing, on any of 4 markers and 4 entities of three kinds; all 32 markers, any subset of six of them (first and last included) released in either order and obtained again; on 1 (4) surface and 1 (4) solid meshes, with or without lone edges and faces, two markers of the caller in 4 (8) patterns, one (two) library operations: set union, intersection, difference of arbitrary sets, renumbering, classification with and without geometry, GMV export, partitioning with 0..1 (0..2) ghost layers, marking through a list; a marker is released only after everything is unmarked, which is how the library itself uses them",
 [E("h_mark.c", e, q, t, covers=["end"], defines=["-DMSTK_USE_MARKERS"]) for e, q, t in (("h_mark_hist", 120, 1500), ("h_mark_pool", 60, 60), ("h_mark_lib2", 150, 1800), ("h_mark_lib3", 150, 1800), ("h_mark_lib3_F4", 150, 1800))])
