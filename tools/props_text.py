API = "libs/MeshKernelApi/src/MeshKernel.cpp"
GEN_NOTE = "Held on every execution explored (seeded, reproducible); inputs outside the generated family are not covered. Trusts the harness' own oracle, gcc and the sanitizer runtimes."

P("C01", "Undo restores the exact state before a change, redo the state after it",
  "After any history of successful modifying calls on any number of kernels, undoing the most recent change gives back the observable state the kernel had before it (nodes, edges, faces, 1D mesh, curvilinear grid, contacts, projection), and redoing gives back the state after it, however often and in whatever interleaving changes, undos and redos are made. A successful call that changes a mesh, grid or the projection of a kernel can always be undone (setting contacts, network chainages, and the prepare/iterate steps of interactive sessions excepted), and an undo or redo in one kernel never changes another kernel.",
  ["histories", "inputs"], "every interleaving of modifying calls, undo and redo over several kernels and all three projections",
  "tests undo one hand-picked change on one mesh; the guarantee is over every operation applied to every state any other history can produce",
  [API, "libs/MeshKernel/src/UndoActions/", "libs/MeshKernelApi/src/MKStateUndoAction.cpp"],
  [("undo actions", "libs/MeshKernel/include/MeshKernel/UndoActions"), ("undo stack", "libs/MeshKernel/src/UndoActions/UndoActionStack.cpp")],
  "one evaluation = comparison of the complete observable state of every kernel with the recorded state after an undo or redo; distinct = different (operation, state) pairs",
  ["coordinates are compared up to 1e-11 relative (face centres 1e-7), everything else exactly", "an inserted node that is not connected to an edge is removed by the next administration, so node and edge insertions are undone as a group"],
  ["mkernel_undo_state, mkernel_redo_state, mkernel_*_get_data"], GEN_NOTE)

P("C02", "The undo history is a bounded stack shared by all kernels",
  "Each successful modifying call adds exactly one entry, for the kernel it was made in, and discards what could be redone in that kernel; undo takes back the newest entry and redo the most recently undone one, reporting whether something was done and for which kernel. The number of undo entries never exceeds the configured maximum (the oldest are dropped; a maximum of zero disables and empties the history), the reported counts per kernel and in total always equal the entries that can really be undone and redone, and clearing the history, clearing it for one kernel or expunging a kernel removes exactly the entries concerned and changes no state. A failing call adds no entry, and undo or redo without entries reports that nothing was done and changes nothing.",
  ["histories", "configurations"], "every sequence of changes, undo, redo, clear, expunge and resize over several kernels",
  "tests check a few fixed sequences of two or three steps with the default size",
  [API, "libs/MeshKernel/src/UndoActions/UndoActionStack.cpp"],
  [("undo stack", "libs/MeshKernel/src/UndoActions/UndoActionStack.cpp"), ("API bookkeeping", API)],
  "one evaluation = one comparison of reported counts, flags, ids or states with a reference model of the history; distinct = different (history content, maximum) states of the model",
  ["calls that succeed without visible effect may or may not add an entry"],
  ["mkernel_undo_state_count, mkernel_undo_state_count_for_id, mkernel_undo_state, mkernel_redo_state"], GEN_NOTE,
  technique="online model-based monitor of the undo history on randomised API histories (ASan+UBSan build)")

P("C03", "The 2D mesh topology is consistent and complete after every operation",
  "Whatever sequence of operations, undos and redos produced it, the exported 2D mesh is self-consistent: every edge joins two different existing nodes, no two edges join the same nodes, no node is without edge, the face, edge and node tables refer to each other consistently (each edge lists exactly the at most two faces it is a side of), faces are counter-clockwise without repeated nodes, and reported counts, edge middles and face mass centres agree with the coordinates. On a mesh without crossing edges the faces are exactly the regions enclosed by three to six edges (a region that shares several edges with one neighbour, or into which edges protrude, may be left out), and reading the mesh does not change it.",
  ["histories", "inputs"], "every mesh reachable by creation, editing, refinement, merging, deletion, undo and redo",
  "tests compare a few meshes with stored arrays; consistency has to hold for every mesh any history of edits can produce",
  ["libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/Mesh.cpp", API],
  [("face finding", "libs/MeshKernel/src/Mesh2D.cpp"), ("node and edge administration", "libs/MeshKernel/src/Mesh.cpp")],
  "one evaluation = all exported tables of one mesh cross-checked, or its faces compared with an independent half-edge traversal; distinct = different meshes",
  ["completeness of the faces is judged on Cartesian meshes without crossing, touching or nearly coincident edges and with less than 16 edges per node"],
  ["mkernel_mesh2d_get_dimensions, mkernel_mesh2d_get_data, mkernel_mesh2d_get_node_edge_data"], GEN_NOTE)

M2C = "libs/MeshKernel/src/Mesh2D.cpp"
MC = "libs/MeshKernel/src/Mesh.cpp"

P("C07", "Refinement only subdivides: the faces asked for, as often as requested",
  "Refining a mesh of triangles and quadrilaterals within a polygon, by sampled levels (scattered, or given on a grid and interpolated bilinearly at the centre of mass of each face) or by the wave Courant number of depths on a grid leaves every existing node where it was, and the new faces lie within the old ones and fill each of them exactly. Each selected face is divided into four by every iteration at the middles of its edges (and the centre of mass of a quadrilateral when so asked), a face that is not selected is only divided when all but one of its edges are, or to connect the new nodes on its edges when that is requested, and an edge limit that no half edge meets prevents any division. Nothing else is added.",
  ["inputs"], "every mesh of convex triangles and quadrilaterals, polygon, sample set and parameter choice",
  "tests compare node counts of a few fixed meshes and polygons",
  ["libs/MeshKernel/src/MeshRefinement.cpp", "libs/MeshKernel/src/AveragingInterpolation.cpp", "libs/MeshKernel/src/Mesh2D.cpp", API],
  [("selection by polygon", "libs/MeshKernel/src/MeshRefinement.cpp"), ("selection by samples", "libs/MeshKernel/src/MeshRefinement.cpp"), ("division of faces and edges", "libs/MeshKernel/src/MeshRefinement.cpp"), ("connection of hanging nodes", "libs/MeshKernel/src/MeshRefinement.cpp")],
  "one evaluation = one node, face or old face of a refined mesh compared with the independently predicted division; distinct = different refined meshes",
  ["judged in Cartesian coordinates on planar meshes whose faces are convex and without straight corners", "the exact number of parts per face is judged for one iteration, and for several iterations inside the polygon", "nodes and samples closer than a tolerance to an edge of the polygon or a face leave the selection undecided and only the subdivision is judged", "refinement types other than levels are only covered by the other properties", "a sample whose level a neighbouring face has used up is a known finding: an outcome that equals exactly that is reported as such"],
  ["mkernel_mesh2d_refine_based_on_polygon, mkernel_mesh2d_refine_based_on_samples, mkernel_mesh2d_get_data"], GEN_NOTE)

P("C08", "Deleting with a polygon removes exactly the selected part of the 2D mesh",
  "Deleting with a polygon set selects the faces fully inside it (no node outside and no side crossing the polygon), the faces inside or intersected by it, or the faces with their circumcentre inside it, as requested, and their complement when the selection is inverted; an empty polygon selects everything. Every edge of a face that is not selected stays, every edge whose faces are all selected goes (edges without face follow their middle with the circumcentre option), and nothing else of the mesh moves or appears.",
  ["inputs", "histories"], "every Cartesian mesh, polygon set with holes and several polygons, option and inversion",
  "tests delete with one or two hand-made polygons; the geometry of mesh and polygon is unbounded",
  [M2C, "libs/MeshKernel/src/Polygons.cpp", API], [("deletion", M2C), ("point in polygon", "libs/MeshKernel/src/Polygon.cpp")],
  "one evaluation = the edges left by one deletion compared with those predicted by an independent selection; distinct = different deletions with both kept and deleted edges",
  ["judged in Cartesian meshes; faces with a node or centre within a small tolerance of the polygon boundary are left undecided", "edges without face are unspecified for the first two options", "polygons that do not intersect themselves"],
  ["mkernel_mesh2d_delete, mkernel_mesh2d_get_data"], GEN_NOTE)

P("C09", "Polygon selections contain exactly the nodes and points inside",
  "The nodes reported inside (or outside) a polygon set are exactly the existing mesh nodes inside (outside) at least one of its polygons and not in one of that polygon's holes, each once and as many as were counted; an empty polygon set contains everything. Points tested against a polygon with holes are reported inside exactly when they are. This holds in Cartesian and both spherical projections.",
  ["inputs", "histories"], "every mesh, polygon set and point, including points level with polygon vertices",
  "tests use one convex polygon and few nodes; degenerate alignments and holes are not sampled",
  ["libs/MeshKernel/src/Polygon.cpp", "libs/MeshKernel/src/Polygons.cpp", "libs/MeshKernel/src/PolygonalEnclosure.cpp", API], [("point in polygon", "libs/MeshKernel/src/Polygon.cpp")],
  "one evaluation = one selection compared node by node with an independent crossing-number test; distinct = different non-trivial selections",
  ["points within a tolerance of the polygon boundary are left undecided (5% of the mesh size in the accurate spherical projection, where polygon sides are great circles)", "polygons with more than one enclosure do not overlap"],
  ["mkernel_mesh2d_get_nodes_in_polygons, mkernel_polygon_get_included_points"], GEN_NOTE)

P("C10", "Searching a location returns the nearest existing one, also after edits",
  "Asking for the node within a radius, the edge, or the face, node or edge nearest to a point returns an existing location that no other one beats in distance (faces by their circumcentre), restricted to the bounding box where one applies to edges, faces and node locations, and nothing is returned when there is none. After any edit, undo or redo the answer refers to the current mesh.",
  ["inputs", "histories"], "every Cartesian mesh reached by any history, query point, radius and bounding box",
  "a search tree that is out of date or mis-sized only shows after particular edits; tests query fresh meshes",
  ["libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp", API], [("search trees", "libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp"), ("invalidation", MC)],
  "one evaluation = one query compared with a linear search over the exported mesh; distinct = different (point, result) pairs",
  ["Cartesian meshes; ties are accepted; locations within tolerance of the box border make the query undecided; circumcentres of faces with more than three nodes are the result of an iteration (tolerance 0.02)"],
  ["mkernel_mesh2d_get_node_index, _get_closest_node, _get_edge, _get_location_index"], GEN_NOTE)

P("C11", "Merging nodes unites exactly the nodes that are close and keeps connectivity",
  "Merging by distance (given, or a tenth of the shortest selected edge) inside a polygon unites exactly the selected nodes that are closer than the distance: afterwards no two selected nodes are that close, no other node moved or disappeared, and every group of united nodes keeps one survivor. Two groups are connected afterwards exactly if they were connected before, by a single edge, and merging two given nodes removes the first and keeps the second.",
  ["inputs", "histories"], "every Cartesian mesh, polygon, distance and pair of nodes",
  "tests merge one known pair; chains of close nodes, shared neighbours and collapsed edges are not sampled",
  [MC, M2C, API], [("merging", MC)],
  "one evaluation = mesh before and after one merge compared as contracted graphs; distinct = different merges that united something",
  ["selections with a node on the polygon boundary or a pair exactly at the distance are left undecided", "a group left without any connection disappears"],
  ["mkernel_mesh2d_merge_nodes, _merge_nodes_with_merging_distance, _merge_two_nodes"], GEN_NOTE)

P("C12", "Mesh boundary polygons contain every boundary edge exactly once",
  "The boundary of the 2D mesh delivered as polygons consists of exactly the edges that have one face, each of them once, and no other segment; the polygons are closed and as long as announced, for meshes with any number of parts, holes, touching parts and dangling edges.",
  ["inputs", "histories"], "every mesh reached by any history",
  "tests compare one or two outlines with stored arrays",
  [M2C, API], [("boundary walking", M2C)],
  "one evaluation = the segments of all polygons compared with the boundary edges of the exported mesh; distinct = different meshes",
  ["polygons are required to be closed when every node has an even number of boundary edges"],
  ["mkernel_mesh2d_get_mesh_boundaries_as_polygons"], GEN_NOTE)

P("C18", "Rotations, translations and projection changes move every node exactly",
  "Rotating or translating a 2D mesh moves every existing node exactly as the rigid transformation about the given centre prescribes (degrees, counter-clockwise) and leaves edges, faces and deleted nodes as they are. Converting the mesh between geographic and UTM coordinates gives the coordinates of the transverse Mercator projection of the requested zone and hemisphere, keeps edges, faces and deleted nodes, changes the reported projection, and converting back returns the original coordinates.",
  ["inputs", "histories"], "every mesh, rotation centre, angle, shift, zone and hemisphere",
  "tests transform one rectangular mesh with one zone; deleted nodes, large angles and other zones are not sampled",
  ["libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp", "libs/MeshKernel/include/MeshKernel/MeshConversion.hpp", "libs/MeshKernel/include/MeshKernel/ProjectionConversions.hpp", API],
  [("transformation", "libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp"), ("conversion", "libs/MeshKernel/include/MeshKernel/MeshConversion.hpp")],
  "one evaluation = all nodes and tables of a mesh before and after one transformation compared with the closed formula (Krueger series for UTM); distinct = different (mesh, transformation) pairs",
  ["UTM within 3 degrees of the central meridian and between 2 and 72 degrees latitude, tolerance 2 cm; round trip 1e-6 degrees"],
  ["mkernel_mesh2d_rotate, _translate, _convert_projection, mkernel_get_projection"], GEN_NOTE)

P("C19", "Mesh quality measures are those of the current mesh",
  "Orthogonality (cosine between an inner edge and the line joining the circumcentres of its faces), smoothness (ratio of the areas of the faces of an inner edge), edge length, obtuse triangles, small flow edges (inner edges whose circumcentres are closer than the threshold times the mean root of the face areas), the polygons of faces with a given number of edges and of faces whose edges all have an orthogonality within a range are exactly those of the mesh as it is when asked, after any history of edits, undo and redo. Boundary and deleted edges get the missing value, the announced sizes are the delivered ones, and deleting small flow edges removes exactly those.",
  ["inputs", "histories"], "every Cartesian mesh reached by any history, threshold and range",
  "tests evaluate measures on fresh meshes; out-of-date connectivity only shows after particular edits",
  [M2C, API], [("measures", M2C), ("administration before measuring", API)],
  "one evaluation = all values of one measure recomputed from the exported mesh; distinct = different (measure, mesh) pairs with a decided value",
  ["circumcentres are recomputed for triangles and rectangles; for other faces only the range of the orthogonality is checked"],
  ["mkernel_mesh2d_get_orthogonality, _get_smoothness, _get_property, _get_obtuse_triangles_mass_centers, _get_small_flow_edge_centers, _get_face_polygons, _get_filtered_face_polygons"], GEN_NOTE)

P("C13", "Interpolated values are those of the samples around each mesh location",
  "Triangulation interpolation gives each node, edge middle or face centre inside the convex hull of the samples the linear interpolant on the Delaunay triangle of the samples that contains it (so a linear field is reproduced) and the missing value outside the hull. Averaging interpolation gives the average, closest, maximum, minimum, inverse distance weighted or smallest absolute value of exactly the samples in the search area of the location (the face, or the area around the node, scaled by the relative search size; for edges the mean of the end nodes), and the missing value when there are none or fewer than the required number. Values are delivered for every location in mesh order at its coordinates, with the missing value at deleted ones.",
  ["inputs", "histories"], "every Cartesian mesh, sample set, location type, averaging method, search size and minimum number",
  "tests compare a handful of values on one mesh; the point location walk and the search areas depend on the relative geometry of mesh and samples",
  ["libs/MeshKernel/src/AveragingInterpolation.cpp", "libs/MeshKernel/src/AveragingStrategies/", "libs/MeshKernel/src/TriangulationInterpolation.cpp", API],
  [("averaging", "libs/MeshKernel/src/AveragingInterpolation.cpp"), ("triangulation", "libs/MeshKernel/src/TriangulationInterpolation.cpp")],
  "one evaluation = the values at all locations of one mesh compared with an independent computation (brute force Delaunay triangles, crossing number search areas); distinct = different (mesh, samples, method) with decided locations",
  ["judged in Cartesian coordinates; locations with a sample on the border of the search area, on the hull, or in nearly cocircular configurations are left undecided", "the relative search size is applied to the cell twice, as documented by the current behaviour: once when the cell is built and once for the search", "nodes with fewer than three edges are not judged for averaging"],
  ["mkernel_mesh2d_triangulation_interpolation, mkernel_mesh2d_averaging_interpolation"], GEN_NOTE)

CGC = "libs/MeshKernel/src/CurvilinearGrid/"
P("C14", "Curvilinear grid edits change exactly the addressed nodes and cells",
  "Deleting or moving a node, deleting the interior or exterior of a block, refining and derefining along a grid line or everywhere, adding a cell at a boundary edge and mirroring a boundary line produce exactly the grid lines, nodes and cells that the operation prescribes at the nearest addressed node or edge, keep every other node at its place, and refining followed by derefining restores the grid, for grids with any pattern of missing nodes and after any sequence of edits. New nodes lie on the interpolated grid lines (evenly spread on a regular grid) or are the mirror image of the inner ones. The delivered grid, its boundary polygons, the nearest node, edge or cell in a box, and the mesh it converts to are those of the existing cells of the grid as it is at that moment.",
  ["inputs", "histories"], "every grid with any pattern of missing nodes and every sequence of edits",
  "tests apply one edit to one complete rectangular grid; holes, corners and edits after edits are not sampled",
  [CGC + "CurvilinearGrid.cpp", CGC + "CurvilinearGridRefinement.cpp", CGC + "CurvilinearGridFullRefinement.cpp", CGC + "CurvilinearGridDeRefinement.cpp", CGC + "CurvilinearGridLineMirror.cpp", CGC + "CurvilinearGridDeleteInterior.cpp", CGC + "CurvilinearGridDeleteExterior.cpp", API],
  [("grid administration and cell insertion", CGC + "CurvilinearGrid.cpp"), ("refinement", CGC + "CurvilinearGridRefinement.cpp"), ("mirroring", CGC + "CurvilinearGridLineMirror.cpp")],
  "one evaluation = the complete delivered grid, boundary, mesh or location compared with an independent model of the grid after one operation; distinct = different (operation, resulting grid) pairs",
  ["nodes that are not a corner of any complete cell are disregarded when grids are compared", "a query point with two about equally near nodes or edges is not used", "on irregular grids the position of nodes added by refinement is judged exactly on the original grid lines and to the size of a cell elsewhere", "judged in Cartesian coordinates"],
  ["mkernel_curvilinear_* editing, refinement, boundary, location and conversion calls"], GEN_NOTE)

P("C04", "A failed call has no effect, and no call touches another kernel",
  "Every call that cannot do what it was asked reports an error code with a retrievable message and leaves all meshes, grids, networks, contacts and the undo and redo possibilities exactly as they were. A call addressing a kernel that does not exist or was never handed out or has been expunged always reports an error. No call changes a kernel other than the one it addresses, and no query changes anything.",
  ["inputs", "histories"], "every call of the interface with valid, malformed and out-of-range arguments, in every state of one or more kernels",
  "tests check single error codes; what a failing call leaves behind is not looked at",
  [API, "libs/MeshKernelApi/src/", "libs/MeshKernel/src/UndoActions/UndoActionStack.cpp"],
  [("calls and their undo records", API)],
  "one evaluation = one call followed by a comparison of the complete observable state of all kernels and the undo counters with those before; distinct = different (function, exit code, state) among failed calls and queries",
  ["arguments are memory-wise honest: arrays have the announced length and output buffers are large enough; no NaN or infinite coordinates", "the deleted entries of a mesh are disregarded when states are compared", "interactive sessions of several calls are judged call by call only in the generic workload"],
  ["every exported function that takes a kernel id"], GEN_NOTE)

P("C05", "No call sequence corrupts memory, crashes, hangs, leaks or is undefined",
  "Whatever sequence of calls is made, with valid, malformed or out-of-range arguments, in whatever order, on several kernels, with undoing, redoing and discarding in between, no call crashes, fails to return, accesses memory it does not own or that was released or not initialised, or relies on undefined arithmetic or conversions. In particular a call may follow directly on any other one, without the state having been looked at in between. When all kernels are discarded the memory used for them and for their undo history is released.",
  ["inputs", "histories"], "every sequence of calls of the interface with memory-wise honest arguments",
  "tests run without instrumentation and follow each edit by a query, which hides stale tables",
  [API, "libs/MeshKernelApi/src/", "libs/MeshKernel/src/", "libs/MeshKernelApi/src/MKStateUndoAction.cpp"],
  [("calls", API), ("mesh tables", "libs/MeshKernel/src/Mesh.cpp"), ("undo records", "libs/MeshKernel/src/UndoActions/UndoActionStack.cpp")],
  "one evaluation = one call executed under address, undefined behaviour and library assertions instrumentation; per sequence one leak search and one allocation balance; distinct = different (function, exit code, size of the state)",
  ["arguments are memory-wise honest: arrays have the announced length and output buffers are large enough; no NaN or infinite coordinates, coordinates below 1e8", "growing a grid from arbitrary splines is used with suitable splines only; requests for absurdly large meshes are not made", "the bundled Triangle library itself is not instrumented (it computes bit patterns of pointers)"],
  ["every exported function"], GEN_NOTE)

P("C15", "Generated meshes and grids are exactly the ones the parameters describe",
  "A rectangular mesh or grid has the given numbers of columns and rows, origin, angle and block sizes, covers the given extension with whole blocks, or consists of the cells whose corners all lie inside the given polygon; a circular grid has the given radii and arc lengths; a grid from a polygon has the polygon's nodes as its outer nodes; a global mesh is symmetric about the equator with the asked number of evenly spread cells per row. A triangulation of points consists of the triangles whose circle contains no other point (very flat ones left out), and one of a convex polygon covers it completely, uses all its nodes and has triangles no larger than its segments suggest. Generating into an existing mesh adds the new part and leaves the old part as it was.",
  ["inputs"], "every set of generation parameters, polygon and point set",
  "tests check the number of nodes and a few coordinates for single parameter sets",
  ["libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRectangular.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridGenerateCircularGrid.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp", "libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/TriangulationWrapper.cpp", API],
  [("rectangular grids", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRectangular.cpp"), ("circular grids", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridGenerateCircularGrid.cpp"), ("transfinite grids", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp"), ("global mesh", "libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp"), ("triangulation", "libs/MeshKernel/src/TriangulationWrapper.cpp")],
  "one evaluation = one node, edge, cell or triangle compared with the independently computed mesh; distinct = different generated meshes",
  ["coordinates are compared to about ten digits", "polygons with a lattice point closer than a tolerance to their boundary are not judged", "graded circular grids are judged on the size and spacing only", "of splines based generation only the other properties say something"],
  ["mkernel_mesh2d_make_rectangular_mesh*, mkernel_curvilinear_compute_rectangular_grid*, _compute_circular_grid, _compute_transfinite_from_polygon, mkernel_mesh2d_make_triangular_mesh_from_samples, _from_polygon, mkernel_mesh2d_make_global"], GEN_NOTE)

P("C21", "Polygon crossings, spline points and mesh-to-grid conversion are exact",
  "Intersecting a mesh with a polygon reports every edge of a face that a side of the polygon crosses exactly once and no other edge, with the side, the relative position on the side and on the edge where they cross and the edge's nodes in the order from right to left of the side, sorted along the polygon, and every face with a crossed edge exactly once with all its crossed edges. The points of a spline are its corner points and the asked number of points between them, at equal parameter steps on the cubic curve through the corner points that has continuous curvature and none at its ends. Converting a mesh to a grid gives each node of the quadrilaterals connected with the one at the given point its own place in the grid, with neighbouring grid nodes joined by mesh edges, nothing else, and an empty mesh.",
  ["inputs", "histories"], "every mesh, polygon list, spline set and starting point",
  "tests intersect two fixed meshes, evaluate one spline and convert a few fixed meshes",
  ["libs/MeshKernel/src/Mesh2DIntersections.cpp", "libs/MeshKernel/src/SplineAlgorithms.cpp", "libs/MeshKernel/include/MeshKernel/Operations.hpp", "libs/MeshKernel/src/Mesh2DToCurvilinear.cpp", API],
  [("crossings", "libs/MeshKernel/src/Mesh2DIntersections.cpp"), ("second derivatives", "libs/MeshKernel/src/SplineAlgorithms.cpp"), ("points on a spline", "libs/MeshKernel/include/MeshKernel/Operations.hpp"), ("conversion", "libs/MeshKernel/src/Mesh2DToCurvilinear.cpp")],
  "one evaluation = one edge, face, spline point or grid node compared with the independently computed one; distinct = different results",
  ["judged in Cartesian coordinates; touching, nearly touching and nearly parallel sides and edges may be reported or not", "of an edge crossed more than once any of its crossings with the first polygon that crosses it may be reported; edges without face are not judged", "conversion is judged on subsets of a structured mesh, completely when neighbouring nodes are all connected; splines have two corner points at least"],
  ["mkernel_mesh2d_intersections_from_polygon, mkernel_get_splines, mkernel_mesh2d_convert_to_curvilinear"], GEN_NOTE)

P("C25", "Casulli refinement, mesh connection, spline grids and grid measures are exact",
  "Casulli refinement replaces every selected node by one in each face at it, half way to the circumcentre of the face, and one on each boundary edge at it, a quarter of the edge away, keeps the other nodes and corners (nodes of a single face) and, on the whole mesh, connects the new nodes around each old node, along each old edge and along the boundary only. Connecting meshes of equal cells along facing sides closer than the search distance unites the facing nodes one to one into a mesh with the faces of both. A grid from straight splines has a node at every crossing and the asked number of cells in order between crossings, evenly spread for evenly spread splines, and the smoothness of a grid (ratio of the distances to the next and previous node on the line, at least one) and its curvature (thousand times the tangent of the angle at the next node over the distance to the previous one) are reported for every node with two neighbours and missing elsewhere.",
  ["inputs", "histories"], "every mesh of rectangles or acute triangles, pair of meshes, set of straight splines and grid",
  "tests compare a few fixed meshes and grids",
  ["libs/MeshKernel/src/CasulliRefinement.cpp", "libs/MeshKernel/src/ConnectMeshes.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothness.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridCurvature.cpp", API],
  [("Casulli refinement", "libs/MeshKernel/src/CasulliRefinement.cpp"), ("connection", "libs/MeshKernel/src/ConnectMeshes.cpp"), ("grids from splines", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp"), ("transfinite grids", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp"), ("smoothness", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothness.cpp"), ("curvature", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridCurvature.cpp")],
  "one evaluation = one node, edge, face or reported value compared with the independently computed one; distinct = different resulting meshes, grids and value sets",
  ["judged in Cartesian coordinates; with a polygon only the nodes of the Casulli refinement are judged", "meshes for Casulli refinement are one or two structured blocks of rectangles or acute triangles, rotated and randomly numbered", "splines cross away from their corner points (a crossing at a corner point may be missed)", "curvature on (nearly) straight or degenerate lines is not judged"],
  ["mkernel_mesh2d_casulli_refinement, _on_polygon, mkernel_mesh2d_connect_meshes, mkernel_curvilinear_compute_transfinite_from_splines, _compute_grid_from_splines, _compute_smoothness, _compute_curvature"], GEN_NOTE)

P("C06", "Data given to a kernel is delivered back exactly as given",
  "A 2D mesh, 1D mesh, curvilinear grid or set of contacts given to a kernel is delivered back with the same nodes, edges and links in the same order, replaces what was there before, and leaves the other data of the kernel as it was. Adding a mesh to an existing one appends its nodes and edges, with renumbered ends, and leaves the existing ones as they were. This holds for every sequence of such calls on any number of kernels, in every projection and for grids with any pattern of missing cells.",
  ["inputs", "histories"], "every mesh, grid and set of contacts without unconnected nodes, every order of calls",
  "tests set a few fixed meshes once and mostly look at the counts",
  [API, "libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/src/Mesh1D.cpp", "libs/MeshKernel/src/Contacts.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp"],
  [("setting and getting", API), ("meshes", "libs/MeshKernel/src/Mesh.cpp"), ("grids", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp")],
  "one evaluation = one mesh, grid or set of contacts compared with what was given; distinct = different states of a kernel",
  ["every node of a given mesh has an edge and every node of a given grid belongs to a cell (others are dropped)", "coordinates are compared to ten digits (longitudes may be shifted and shifted back)"],
  ["mkernel_mesh2d_set, _add, _get_data, mkernel_mesh1d_set, _add, _get_data, mkernel_curvilinear_set, _get_data, mkernel_contacts_set, _get_data"], GEN_NOTE)

P("C22", "Elementary edits of the 2D mesh change exactly what they name",
  "Inserting a node or an edge (by node numbers or by coordinates, using existing nodes at the ends), deleting a node, an edge or the edge nearest to a point in a box, deleting hanging edges and removing disconnected regions add or remove exactly the named nodes and edges, the edges attached to a deleted node and nodes left without edge, and nothing else. Moving a node puts it at its new position and lets the nodes closer than the distance it moves follow with the cosine-weighted part of the move; splitting a row splits exactly the quadrilaterals reached through opposite edges, up to the boundary or the first other face. Flipping the edges of triangles keeps the nodes, the number of edges and faces, the boundary and the covered area.",
  ["inputs", "histories"], "every mesh, edit and argument, after any history of edits",
  "tests apply each edit once to a small fresh mesh",
  ["libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/FlipEdges.cpp", "libs/MeshKernel/src/RemoveDisconnectedRegions.cpp", "libs/MeshKernel/src/SplitRowColumnOfMesh.cpp", API],
  [("nodes and edges", "libs/MeshKernel/src/Mesh.cpp"), ("hanging edges", "libs/MeshKernel/src/Mesh2D.cpp"), ("flip", "libs/MeshKernel/src/FlipEdges.cpp"), ("regions", "libs/MeshKernel/src/RemoveDisconnectedRegions.cpp"), ("split row", "libs/MeshKernel/src/SplitRowColumnOfMesh.cpp")],
  "one evaluation = one node or edge of the mesh after the edit compared with the independently computed mesh; distinct = different resulting meshes",
  ["judged in Cartesian coordinates; meshes with coinciding nodes are left out", "rows that cross themselves, regions of equal size and ties between edges are not judged", "splitting and flipping are judged on planar meshes, flipping on convex triangles and quadrilaterals"],
  ["mkernel_mesh2d_insert_node, _insert_edge, _insert_edge_from_coordinates, _delete_node, _delete_edge, _delete_edge_by_index, _move_node, _delete_hanging_edges, _remove_disconnected_regions, _split_row, _flip_edges"], GEN_NOTE)

P("C23", "Polygon refinement, offset and snapping place every point as prescribed",
  "Refining a stretch of a polygon keeps all its points and divides each side of the stretch into the whole number of equal parts that comes nearest to the target length; linear refinement keeps the points outside the stretch and its two ends and places the others in order on the perimeter, with a spacing that goes gradually from that of the first to that of the last side of the stretch. Offsetting moves every point to the offset distance from both its sides, outward for a counter-clockwise polygon, or to both sides when asked for. Snapping puts each point in the range at the nearest point of the land boundary lines and leaves all other points; in all cases any polygon of the list can be addressed, ranges may pass the closing point, and as many points are delivered as announced.",
  ["inputs"], "every polygon list, range, length, distance, land boundary and projection",
  "tests refine, offset and snap one polygon with one range, mostly in Cartesian coordinates",
  ["libs/MeshKernel/src/Polygon.cpp", "libs/MeshKernel/src/Polygons.cpp", "libs/MeshKernel/src/LandBoundary.cpp", "libs/MeshKernel/src/Operations.cpp", API],
  [("refinement and offset", "libs/MeshKernel/src/Polygon.cpp"), ("range in a list", "libs/MeshKernel/src/Polygons.cpp"), ("nearest point", "libs/MeshKernel/src/LandBoundary.cpp"), ("distance to a line", "libs/MeshKernel/src/Operations.cpp")],
  "one evaluation = one point of the result compared with the independently computed one; distinct = different resulting polygons",
  ["geographic polygons of up to some kilometres, with a tolerance of 1 percent for offsets and 2 per mille for snapping", "sides whose length is half way between two numbers of parts are not judged; the spacing of linear refinement is judged within 25 percent", "polygons without repeated consecutive points; offsets at very sharp corners are not judged"],
  ["mkernel_polygon_refine, _linear_refine, _get_offset and their counts, mkernel_polygon_snap_to_landboundary"], GEN_NOTE)

P("C24", "Shaping operations move only the nodes they may, and as prescribed",
  "Smoothing, directional smoothing, line attraction, line shift, snapping and orthogonalization change positions only: grid size and mesh connections stay, nodes outside the chosen block, line range or polygon, corners and inner nodes of frozen lines stay exactly where they are, and boundary nodes of a mesh stay on the boundary edges at them. On a curvilinear grid an inner node is smoothed half way to the mean of its four neighbours; a moved node of a shifted line gets its target and the shift varies linearly along the line and as a cosine across the block; attraction and snapping displace by the same cosine, with the nodes of the snapped line at the nearest point of the land boundary. Orthogonalization leaves a regular rectangular grid or mesh as it is, makes one with displaced inner nodes more orthogonal, does not depend on where the mesh lies or how it is turned, and gives the same result in one call as step by step.",
  ["inputs", "configurations"], "every grid or mesh, block, line, polygon, land boundary and parameter set",
  "tests compare some nodes of a few fixed grids with recorded numbers",
  ["libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineAttractionRepulsion.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSnapping.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp", "libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp", "libs/MeshKernel/src/Orthogonalizer.cpp", "libs/MeshKernel/src/Smoother.cpp", API],
  [("smoothing", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp"), ("line shift", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp"), ("attraction", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineAttractionRepulsion.cpp"), ("grid orthogonalization", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp"), ("mesh orthogonalization", "libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp")],
  "one evaluation = one node of the result compared with its old or its independently computed position; distinct = different resulting grids and meshes",
  ["judged in Cartesian coordinates on grids (smoothing, attraction and line shift also with missing nodes) and on planar meshes, without projection to land boundaries", "attraction along a line of constant m is towards the line on grids of which the m direction is to the left of the n direction and away from it on the others, as the repository's tests prescribe", "regular grids with displaced inner nodes: the largest displacement goes down by a fifth at least; regular meshes: the sum of squared cosines between edges and lines connecting face centres is at least halved (not more than a fifth up without smoothing)"],
  ["mkernel_curvilinear_smoothing, _smoothing_directional, _line_attraction_repulsion, the line shift and orthogonalization sessions, _snap_to_landboundary, mkernel_mesh2d_compute_orthogonalization and its step by step variant"], GEN_NOTE)

P("C20", "Results do not depend on the number of threads; no data races",
  "Whatever the number of threads the parallel parts use, every mesh operation delivers exactly the same mesh and the same mesh measures as with one thread. No two threads access the same memory without synchronisation when one of them writes, in orthogonalization and smoothing, the computation of face centres and areas, rotation, translation and projection conversion.",
  ["schedules", "inputs", "configurations"], "every schedule and number of threads, mesh and operation",
  "tests run with one fixed number of threads and look at values only; a race shows in few schedules",
  ["libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp", "libs/MeshKernel/include/MeshKernel/MeshConversion.hpp"],
  [("orthogonalization", "libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp"), ("face centres", "libs/MeshKernel/src/Mesh2D.cpp"), ("transformation", "libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp"), ("conversion", "libs/MeshKernel/include/MeshKernel/MeshConversion.hpp")],
  "one evaluation = the mesh and its measures after one operation compared between one and several threads while the race detector watches all accesses; distinct = different states",
  ["the threading runtime is replaced by one on plain threads that the race detector understands; 2 to 8 threads", "calls from several client threads at the same time are outside: the interface is not meant for that"],
  ["mkernel_mesh2d_compute_orthogonalization, _rotate, _translate, _convert_projection, _refine_based_on_polygon, _get_property, _get_data"], GEN_NOTE,
  flavour="tsan", technique="ThreadSanitizer build with an instrumented threading runtime, and comparison of results between numbers of threads")

P("C16", "Contacts connect exactly the prescribed 1D nodes and 2D faces",
  "Each contact links an existing 1D node that the mask allows with an existing face: for single contacts the face containing the node, or, for a node outside the mesh, the first boundary face its perpendicular meets on either side unless that link would cross the 1D mesh or an earlier link; for multiple contacts each face crossed by a 1D edge with the nearer end of that edge; with polygons the nearest node and face per polygon; with points the face containing the point with the nearest node; for boundary contacts each boundary face in the selection with the nearest node within the search radius. No prescribed contact is missing and no other one is made, whatever the numbering, direction and branching of the 1D mesh and the shape and edit history of the 2D mesh.",
  ["inputs", "histories"], "every pair of 1D and 2D mesh, mask, selection polygon, point set, projection factor and search radius",
  "tests use one regular mesh crossed by one straight line of nodes",
  ["libs/MeshKernel/src/Contacts.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/Mesh1D.cpp", API],
  [("contacts", "libs/MeshKernel/src/Contacts.cpp"), ("face containing a point", "libs/MeshKernel/src/Mesh2D.cpp")],
  "one evaluation = one 1D node, face, polygon or point whose contacts are compared with an independent computation; distinct = different (method, mesh, contacts)",
  ["judged in Cartesian coordinates on planar meshes; nodes or centres within a small tolerance of an edge, a polygon or a tie, perpendiculars at nodes with three or more edges and faces whose circumcentre is not certain are left undecided", "multiple contacts consider faces whose centre is within 1.05 times the longest edge at the first node of the 1D edge, as implemented"],
  ["mkernel_contacts_compute_single, _multiple, _with_polygons, _with_points, _boundary, mkernel_contacts_get_data"], GEN_NOTE)

P("C17", "The 1D mesh of a network has its nodes and edges exactly where prescribed",
  "Converting a network to a 1D mesh yields a node at the start and end of each line, at the given offset before and after each fixed location (one half way when two are too close), and evenly spread in between so that no two consecutive nodes are further apart than the offset asked for, each at its distance along the line. Consecutive nodes on a line are connected by one edge, coinciding or nearly coinciding nodes of different lines become one node, nothing else is added, and the 1D mesh that was there before is kept as it was.",
  ["inputs"], "every set of lines, fixed locations, offsets and merging distances",
  "tests use one or two lines with few bends and one set of locations",
  ["libs/MeshKernel/src/Network1D.cpp", "libs/MeshKernel/src/Mesh1D.cpp", "libs/MeshKernel/src/Operations.cpp", API],
  [("positions along the line", "libs/MeshKernel/src/Network1D.cpp"), ("mesh from network", "libs/MeshKernel/src/Mesh1D.cpp"), ("points on a line", "libs/MeshKernel/src/Operations.cpp")],
  "one evaluation = one node or edge of the resulting 1D mesh compared with the independently computed positions and connections; distinct = different resulting meshes",
  ["judged in Cartesian coordinates", "when prescribed points of a network are closer than the merging distance only the positions are judged (to a few times that distance)", "fixed locations are given in increasing order"],
  ["mkernel_network1d_set, _compute_fixed_chainages, _compute_offsetted_chainages, _to_mesh1d, mkernel_mesh1d_get_data"], GEN_NOTE)
