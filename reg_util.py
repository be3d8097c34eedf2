check("C01", "histories of 3 operations (4 thorough) out of 13 kinds from a 2-entry list, every operand and position; any removal pattern over 0..3 (0..5) entries followed by 2 operations; growth to 18 entries by each insertion kind; sorted removal over 0..5 entries with arbitrary 32-bit keys and any gaps",
 [E("h_list.c", "h_list_hist", 240, 3000, covers=["end"]), E("h_list.c", "h_list_gaps", 120, 2000, covers=["end"]), E("h_list.c", "h_list_grow", 60, 120, covers=["end"]), E("h_list.c", "h_list_sorted", 60, 200, covers=["end"])])
