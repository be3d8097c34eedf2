check("C06", "catalogue of 8 two- and three-dimensional meshes of up to 9 vertices and 6 cells (triangles, quads, polygons, tets, pyramids, prisms, hexes), every starting vertex and orientation of cells, edges and faces within the listed options; F1 and F4, then every single or double deletion of a cell in F1",
 [E("h_adj.c", e, 60, 600, covers=["end"]) for e in ("h_adj2_F1", "h_adj2_F4", "h_adj3_F1", "h_adj3_F4", "h_adj3_F1d")])
check("C08", "one or two standard elements (tet, pyramid, prism, hex) sharing nothing, a vertex, an edge or a face, built from their vertices in F1, F4, R1 and R2, also when some edges or faces already exist with either orientation; faces of 3..6 vertices queried from every start vertex in both directions",
 [E("h_adj.c", e, 60, 600, covers=["end"]) for e in ("h_elem_F1", "h_elem_F4", "h_elem_R1", "h_elem_R2", "h_elem_F1e", "h_elem_F1f", "h_face_F1", "h_face_R")])
