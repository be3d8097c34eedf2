from registry import check, E
def H(f, names, q=60, t=600, **k): return [E(f, e, q, t, covers=["end"], **k) for e in names.split()]
check("C20", "all grids of 1..3 x 1..2 (thorough 1..3) cells in 2D and up to 8 (12) cells of 1..3 x 1..2 x 1..2 (3) in 3D: full topology, model classification, validity and orientation; for grids with 1 or 2 cells per direction also an arbitrary box (every corner coordinate any integer in -4096..4096, symbolic)",
 H("h_gen.c", "h_gen2 h_gen3"))
check("C21", "the catalogue meshes of triangles, quads, polygons, tets, pyramids, prisms and hexes described with arbitrary (symbolic) coordinates, two vertex numberings, two cell orders, with and without face templates; pentagonal and hexagonal prism + pyramid by templates; refused descriptions; F1, F4, R1, R2",
 H("h_gen.c", "h_desc2_F1 h_desc2_F4 h_desc2_R1 h_desc3_F1 h_desc3_F4 h_desc3_R1 h_descpoly"))
check("C26", "catalogue meshes (2D up to 9 cells, 3D up to 6), each starting vertex, each cell deleted or none; polygons surrounded on all sides, prisms with a cell on every face, 5 to 8 triangles on one edge; a grid of 3 x 3 x 4 (5) hexes; F1 and F4",
 H("h_gen.c", "h_graph2_F1 h_graph2_F4 h_graph3_F1 h_graph3_F4 h_graphbig h_graphbig3 h_graphgrid"))
check("C27", "conversion of triangle meshes of up to 4 (6) and tet meshes of up to 4 (6) cells, each starting vertex, symbolic (2D) or patterned (3D) model entity IDs and dimensions, with and without a user attribute, and refused meshes; interior deletion of 7 (10) two- and three-dimensional meshes, open and closed chains of up to 4 (6) edges and lone vertices with symbolic model IDs; F1 and F4; expected complexes",
 H("h_gen.c", "h_quad_F1 h_quad_F4 h_hex_F1 h_hex_F4 h_bdry_F1 h_bdry_F4 h_wire_F1 h_wire_F4"))
check("C28", "edges, angles, dihedral angles of triangle and quad pairs, condition numbers and coordinate extraction with arbitrary integer coordinates in -40..40 (for angles two points, for dihedral angles one point of each face, the others fixed), every edge direction, face direction and starting corner; sums and products exact, roots, quotients and normalisation decided over the real numbers (rounding outside the bound)",
 H("h_geom.c", "h_vec h_elen h_coords h_angle h_angle0 h_dih33 h_dih34 h_dih43 h_dih44 h_cond") + [E("h_geom.c", "h_vlen", 60, 600, covers=["zero", "unit", "end"])])
check("C25", "every undirected graph of up to 5 (6) nodes from its first node as start and trees of 7 (8) nodes through the graph reordering; sorting of up to 5 (6) arbitrary 32-bit values and keys; comparison functions on arbitrary IDs and integer coordinates; renumbering sequentially and by bandwidth of 12 (14) catalogue meshes and small grids, each entity kind, sequential, descending or partly symbolic IDs, with isolated vertex, second component or deleted cell; F1 and F4",
 H("h_order.c", "h_graph4 h_graph5 h_graphtree h_qsort h_qsortk h_cmp h_cmpface h_seq2 h_seq3 h_rcm2 h_rcm3 h_rcm2_F4 h_rcm3_F4 h_rcmgrid") + H("h_order.c", "h_graph6", 60, 600, tier="thorough"))
check("C23", "catalogue meshes of up to 9 faces or 6 regions with arbitrary (symbolic) model IDs of up to 4 cells (negative, zero, 1..2 (3)); nothing else classified, everything wrongly classified as interior, some boundary faces classified beforehand, or one edge and vertex; isolated vertices and wire edges; a plate of 4 x 3 cells, a block of 3 x 2 x 2 cells a 13-sided fan and 14 triangles on one edge with wire edges, every cell of another material except one of arbitrary material, classified twice; a block of 2 x 2 x 2 cells with two arbitrary materials; axis-aligned boxes of up to 4 (6) and 4 (8) cells with geometric features; F1 and F4",
 H("h_cls.c", "h_cls2_F1 h_cls2_F4 h_cls3_F1 h_cls3_F4 h_geo2 h_geo3 h_many2 h_many3 h_manyfan h_manywire h_touch3"))
check("C24", "valid meshes: 10 (18) catalogue meshes and generated grids, symbolic model IDs of the cells, classified or not, face directions; corrupted meshes: the same, one of 19 kinds of single corruption (a classification, an adjacency removed or added on one side, a direction or a whole region reversed, a degenerate edge, an open region, a two-sided face) at every place; F1 and F4; broken edge cycles inside a face are outside the bound (queries on them terminate the program)",
 H("h_chk.c", "h_ok2_F1 h_ok2_F4 h_ok3_F1 h_ok3_F4 h_bad2_F1 h_bad2_F4 h_bad3_F1 h_bad3_F4"))
check("C22", "2 (5) surface and 1 (6) solid catalogue meshes, arbitrary integer coordinates, IDs with gaps, with and without a deleted cell; symbolic model IDs, owners, parallel types of the first entities; one attribute of every type for each entity kind with symbolic values, sets of every kind; F1 and F4 to each other, R1, R2 (R4 in 2D) to themselves, R1, R4 to F1, F1, F4 to R1, R4; changing and deleting either mesh and leaks for F1 and F4 only",
 H("h_copy.c", "h_cpbig_F1F1 h_cpbig_F1F4 h_cpbig_F4F1 h_cp2_F1F1 h_cp3_F1F1 h_cp2_F4F4 h_cp3_F4F4 h_cp2_F1F4 h_cp3_F4F1 h_cp2_R1R1 h_cp3_R1R1 h_cp2_R2R2 h_cp2_R4R4 h_cp2_R1F1 h_cp3_R1F1 h_cp2_F1R1 h_cp3_F1R1 h_cp2_F4R4 h_cp2_R4F1") + H("h_copy.c", "h_cp3_F1F4 h_cp2_F4F1 h_cp3_R2R2", 60, 600, tier="thorough"))
