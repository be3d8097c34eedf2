from registry import check, E
def H(f, names, q=60, t=600, **k): return [E(f, e, q, t, covers=["end"], **k) for e in names.split()]
check("C17", "2 (5) surface and 1 (6) solid catalogue meshes, with and without a deleted cell, arbitrary integer coordinates in -9999..9999 (one vertex with fixed fractions), symbolic model IDs and attribute values, one attribute of every type; every written/read representation pair of F1, F4, R1, R2 and (2D, or read as F1) R4; vertex-only and wire meshes of up to 3 vertices; four valid files cut after every token; six kinds of foreign files; decimal text of coordinates beyond those values is treated as an uninterpreted function of the value and the format",
 H("h_file.c", "h_rt2_F1 h_rt3_F1 h_rt2_F4 h_rt3_F4 h_rt2_F1asF4 h_rt3_F4asF1 h_rt3_F1toF4 h_rt2_R1 h_rt3_R1 h_rt2_R2 h_rt3_R2 h_rt2_R4 h_rt3_R1toF1 h_rt2_F1asR1 h_rt3_F1asR1 h_rt3_F1asR1toF1 h_rt2_F4asR4 h_rt2_F1asR4toF1 h_rt3_F1asR4toF1 h_rt3_F1toR1 h_rt3_F1asR2 h_small_F1 h_small_F4 h_small_R1 h_small_R2 h_small_R4 h_cutF1 h_cutF4 h_cutR1 h_cutR2 h_refuse")
 + H("h_file.c", "h_rt3_F1asF4 h_rt2_F4asF1 h_rt2_F1toF4 h_rt2_R1toF1 h_rt2_F1asR1toF1 h_rt2_F1toR1 h_rt2_F1asR2", 60, 600, tier="thorough"))
check("C18", "2-3 (5-6) surface and 2 (6) solid catalogue meshes per entry, with and without a deleted cell at either end (so that IDs have gaps), arbitrary integer coordinates in -9999..9999, reversed faces, two materials; GMV in both node orders, with cells by nodes and by faces, integer and real attributes with arbitrary values on vertices and cells; X3D with cell attributes; STL with fixed coordinates for the normals; all cells of the mesh of one dimension; serial. DX is outside (binary, no reader in the library)",
 H("h_expo.c", "h_gmv2_F1 h_gmv3_F1 h_gmv2_F4 h_gmv3_F4 h_off_F1 h_off_F4 h_stl_F1 h_stl_F4 h_x3d2_F1 h_x3d3_F1 h_x3d2_F4 h_x3d3_F4"))
