// not implemented in the library, or left to the application (see DESIGN.md, C02)
"R2.MV_Edges", "R2.MV_Num_Edges", "R2.MV_AdjVertices", "R2.MV_Num_AdjVertices", "R2.MV_EdgeIDs", "R2.MR_AdjRegions", "R2.MR_AdjRegionIDs",
"R4.MV_Edges", "R4.MV_Num_Edges", "R4.MV_AdjVertices", "R4.MV_Num_AdjVertices", "R4.MV_EdgeIDs",
"R1.MR_AdjRegions", "R1.MR_AdjRegionIDs",
