from registry import check, E
def H(f, names, q=60, t=600, **k): return [E(f, e, q, t, covers=["end"], **k) for e in names.split()]
check("C11", "every edge (split once with ME_Split or at up to 2, thorough 3, points with ME_MultiSplit, given or equispaced) and every face (split at a point, or between every two of its non-neighbouring vertices) of the catalogue meshes (triangle fans, tri+quad, polygons; tet, tet pair, thorough hex, pyramid+hex, prism+tet), each edge and face direction; symbolic coordinates and model entity IDs; F1 and F4; the result is compared with the expected mesh built independently and with the full topology validator",
 H("h_split.c", "h_esplit2_F1 h_esplit3_F1 h_esplit2_F4 h_esplit3_F4 h_fsplit2_F1 h_fsplit3_F1 h_fsplit3_F4 h_fsplite2_F1 h_fsplite3_F1 h_fsplite3_F4"))
check("C12", "every edge and face of triangle meshes of up to 4 and tet meshes of up to 4 (thorough 6) cells, each edge and face direction; symbolic split coordinates and model entity IDs; F1 and F4; result compared with the expected simplicial mesh",
 H("h_split.c", "h_esimp2_F1 h_esimp3_F1 h_esimp3_F4 h_esimp3x_F1 h_fsimp2_F1 h_fsimp3_F1 h_fsimp3_F4 h_fsimp3x_F1"))
check("C13", "every pair of neighbouring faces (triangle, quad and polygon pairs in 2D; boundary and interior face pairs of tets, pyramid+hex and prism+tet in 3D) joined along every shared edge, split again and compared; every pair of regions sharing faces (tets, hexes, mixed) joined; hex and prism cells split by a face along every admissible edge loop; each relative orientation and starting vertex; symbolic model IDs; F1 and F4; compared with the expected mesh and the full validator",
 H("h_join.c", "h_fjoin2_F1 h_fjoin3_F1 h_fjoin3_F4 h_fback2_F1 h_fback3_F1 h_fback3_F4 h_rjoin_F1 h_rjoinx_F1 h_rjoin_F4 h_rjoint_F1 h_rsplit_hex_F1 h_rsplit_prism_F1 h_rsplit_hex2_F1 h_rsplit_hex_F4")
 + H("h_join.c", "h_fjoin3p_F1", tier="thorough"))
check("C14", "two separate meshes (triangles 1..2 cells thorough, tets, thorough hexes and prisms) glued by merging one vertex pair, one edge pair or one face pair of either, in either direction and alignment, with symbolic model IDs, every relative model dimension within one, topological checking on and off, and each membership in a set; F1 and F4 vertices, edges and faces; tet vertices in R1 and R2; compared with the expected mesh and the full validator, also after the merged entities are deleted for good",
 H("h_merge.c", "h_mergev2_F1 h_mergev3_F1 h_mergev3_F4 h_mergee2_F1 h_mergee3_F1 h_mergee3_F4 h_mergef2_F1 h_mergef3_F1 h_mergef3_F4 h_merge3_R1 h_merge3_R2")
 + H("h_merge.c", "h_mergef3h_F1 h_mergef3p_F1", tier="thorough"))
check("C16", "every edge of the two-dimensional catalogue meshes (up to 6, and one of 9, cells; triangles, quads, polygons) and of tet meshes, each starting vertex or edge direction, also with one of the first two cells facing the other way, edge model dimension 1..3 and symbolic model ID; expected mesh, returned entities, refusal without change, and swapping back; F1 and F4",
 H("h_swap.c", "h_swap2_F1 h_swap2r_F1 h_swap2_F4 h_swapfan_F1 h_swap3_F1 h_swap3_F4"))
check("C15", "every edge of the 2D catalogue meshes (up to 4, thorough 6, cells incl. quads and polygons) and of tets (single, pair, four around a vertex; thorough ring and cube of 6), hex, pyramid and prism, whose contraction leaves a valid mesh; either or no vertex requested, topological checking on and off, uniform, all-different and one-odd-entity classifications, symbolic vertex model IDs and global IDs; expected mesh, refusal without change, reported deletions and merged pairs, final deletion; F1 and F4",
 H("h_coll.c", "h_coll2_F1 h_coll2x_F1 h_coll3_F1 h_coll3x_F1 h_coll3x_F4 h_collp_F1", 120, 900)
 + H("h_coll.c", "h_coll2_F4 h_coll2e_F1 h_coll3_F4 h_collh_F1", 120, 900, tier="thorough"))
check("C09", "one face of 3..5 edges (with a second face and a region sharing an edge): every chain replaced by 1..3 new edges, given in either order, by position or by edge list, in either rotation; every edge of 5- to 6-edge faces (and ends of 40-edge faces) reversed or removed; every face of 4- to 6-face (and around the word boundary of 40-face) regions removed, replaced, reversed or redirected with symbolic directions, with and without a neighbour; edge end vertices exchanged; vertices of reduced-representation faces and regions replaced, removed and inserted; F1 and F4, R1 and R2",
 H("h_edit.c", "h_edge h_fvert h_rvert h_repl_F1 h_repl_F4 h_repls_F1 h_repls_F4 h_rev_F1 h_rev_F4 h_revbig_F1 h_reg_F1 h_reg_F4 h_regbig_F1 h_regbig_F4"))
