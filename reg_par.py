from registry import check, E
def H(f, names, q=60, t=600, **k): return [E(f, e, q, t, covers=["end"], **k) for e in names.split()]
check("C31", "4 (5) surface and 5 solid meshes of up to 4 cells, every partition vector into 2 and 3 parts (empty parts included), 0 to 2 ghost layers (1 for 3 parts), global IDs given or not, arbitrary coordinates and one arbitrary model dimension (symbolic); F1 and F4; the partitioner's graph for 12 meshes with and without deleted cells and 2..9 parts, METIS replaced by an arbitrary answer; Zoltan is outside the bound",
 H("h_part.c", "h_part2_F1 h_part2_F4 h_part2x3_F1 h_part3_F1 h_part3_F4 h_part3x3_F1 h_graph2 h_graph3 h_graph3_F4"))
check("C32", "4 (5) surface and 5 solid meshes of up to 4 cells over 1, 2 and 3 ranks, every partition vector (empty parts included), 0 to 1 (2) ghost layers, input kept or deleted, receiving mesh given or not, buffered and unbuffered sends, arbitrary coordinates, values of five attribute kinds on every entity kind and five entity sets; F1 and F4; METIS replaced by an arbitrary answer; Zoltan is outside the bound",
 H("h_dist.c", "h_dist2_F1 h_dist2_F4 h_dist2x3_F1 h_dist2x1_F1 h_dist3_F1 h_dist3_F4 h_dist3x3_F1 h_datt2_F1 h_datt2x3_F1 h_datt3_F1 h_datt3_F4 h_dopt2_F1 h_dopt3_F1"))
check("C34", "distributed surface and solid meshes of up to 4 cells over 2 and 3 ranks from every partition vector, 1 (0 to 2) ghost layers; attributes of all four value types on every entity kind; one value per rank arbitrary in [-1000,1000] (thorough: more), some values unset, two successive exchanges, buffered and unbuffered sends; attribute update, gather-scatter with maximum, minimum, sum and average, edge/face exchange, vertex coordinates (arbitrary doubles); attributes on MALLTYPE are not exchanged by the library and are outside the bound",
 H("h_xchg.c", "h_upd2_F1 h_upd2x3_F1 h_upd3_F1 h_upd3x3_F1 h_upd3_F4 h_upds2_F1 h_gs2_F1 h_gs2x3_F1 h_gs3_F1 h_ef2_F1 h_ef2x3_F1 h_ef3_F1 h_crd2_F1 h_crd2x3_F1 h_crd3_F1 h_crd3x3_F1 h_crd3_F4", q=150))
check("C35", "distributed surface and solid meshes of up to 4 cells over 2 and 3 ranks from every partition vector (empty parts included), 1 (0 to 1) ghost layers, each entity kind or all, previous IDs contiguous, shifted, or scaled and reversed, ID search on or off, two successive renumberings, buffered and unbuffered sends; F1 and F4",
 H("h_renum.c", "h_ren2_F1 h_ren2x3_F1 h_ren3_F1 h_ren3x3_F1 h_ren3_F4"))
check("C36", "distributed surface and solid meshes of up to 4 cells over 1, 2 and 3 ranks from every partition vector (empty parts included), 1 (0 to 2) ghost layers; correct meshes, and one disagreement on any rank on one of the first 3 (6) shared entities of any kind: arbitrary global ID, other owner, other parallel type, coordinate shifted by an arbitrary amount above 1e-6, arbitrary model dimension or ID, names of two ghosts exchanged; buffered and unbuffered sends; disagreements on 3 ranks use three cells, one on each rank; an owner changed to a rank with which no ghosts are shared is outside the bound",
 H("h_pcheck.c", "h_ok2_F1 h_ok2x3_F1 h_ok2x1_F1 h_ok3_F1 h_ok3_F4") + H("h_pcheck.c", "h_bad2_F1 h_bad2x3_F1 h_bad3_F1 h_bad3_F4", q=300, t=840))
check("C33", "surface and solid meshes of up to 4 cells cut into independently built pieces on 2 and 3 ranks by every partition vector (empty pieces included), entity order and edge and face directions equal or different between ranks, 0 and 1 ghost layers, input without information, with given global IDs of vertices (coincident vertices included) or with neighbour ranks; fixed coordinates, and arbitrary distinct integer x coordinates of 3 (all) vertices; without ghost layers the type of entities that are not shared is outside the bound",
 H("h_weave.c", "h_weave2_F1 h_weave2x3_F1 h_weave3_F1 h_weave3x3_F1 h_weave3_F4 h_p2p2_F1 h_p2p2x3_F1 h_p2p3_F1 h_p2p3x3_F1 h_sym2_F1 h_sym3_F1", q=150))
