NOT_APPLICABLE = []
DEC = "src/bgem/polygons/decomp.py"
PLG = "src/bgem/polygons/polygons.py"

prop("C01", "A decomposition is a consistent planar subdivision after any edits",
     "After any sequence of public edits of a polygon decomposition (adding points, lines and segments, deleting segments and points) "
     "its points, segments, boundary loops and polygons are exactly those of the planar graph given by the point coordinates and "
     "segment end points: every loop follows the next side around each vertex, every loop has one registered wire, there is one "
     "polygon per face (plus the unbounded one), free points are listed by the polygon that contains them, and nothing removed "
     "stays registered.",
     ["inputs", "histories"], "every edit history and all coordinates; decided for the listed start shapes with symbolic shear, "
     "symbolic new points and lines, any one or two deletions, any chord",
     "Tests replay a few fixed drawings and compare printed states; which topological case (dendrite, split, join, hole in or out) "
     "an edit takes depends on continuous coordinates and on the whole history.",
     POLY, [("insertion and removal of segments by topological case", DEC + ":add_segment family / delete_segment"),
            ("linking of sides around vertices", "src/bgem/polygons/segment.py, point.py:insert_vector")],
     "Candidate lookup is replaced by 'all objects' in most jobs (lookup completeness is C09).",
     ["PolygonDecomposition.points/segments/polygons", "Wire.segments", "Point.segments"])

prop("C02", "Point location and nesting agree with geometry",
     "Whether a polygon or boundary loop contains a point, which polygon a new free point belongs to, and which polygons lie inside "
     "another are all what plain geometry says about the current segments, for points anywhere off the segments.",
     ["inputs"], "every query point in the plane box and every shear of the start shapes",
     "Tests query a handful of points; ray casting goes wrong exactly at special alignments (ray through vertices, horizontal or "
     "vertical segments) that samples miss.",
     POLY, [("ray casting", "src/bgem/polygons/polygon.py:Wire.contains_point"),
            ("wire parents and children", DEC + ":update of wire parents"), ("get_childs", PLG)],
     "Points exactly on a segment are excluded (containment is not defined there).",
     ["Polygon.contains_point", "Wire.contains_point", "get_childs", "Point.poly"])

prop("C03", "Adding a point snaps within the tolerance and is exact otherwise",
     "Adding a point returns an existing point if one is nearer than the tolerance, otherwise splits the segment that is nearer than the "
     "tolerance at the projection (or returns its end point when the projection is within the tolerance of it), otherwise creates a "
     "free point exactly at the given place; nothing else moves or changes, and adding the same point again returns the same object.",
     ["inputs"], "every position of the new point relative to the start shapes for the listed tolerances",
     "Snapping regions are bounded by circles and strips; tests hit a few positions, none near the borders between the regions.",
     POLY, [("_snap_point, _point_on_segment", PLG), ("candidate lookup", "src/bgem/polygons/aabb_lookup.py")],
     "", ["PolygonDecomposition.add_point"])

prop("C04", "A new line is covered end to end and divides everything it crosses",
     "Adding a line gives a chain of registered segments from its start to its end that lies on the line, splits every segment it crosses, "
     "passes through every vertex on it, reuses segments that are already there, leaves no crossing or overlapping segments, and keeps "
     "all existing points in place and all existing segments covered; adding the same line again changes nothing.",
     ["inputs"], "one-parameter families of lines (symbolic offset/slope) through the start shapes in both directions",
     "A line meets vertices, segments and holes in an order that depends on its exact position; tests draw a few lines.",
     POLY, [("_add_line_seg_intersections, _add_line_new_segments", PLG), ("seg_intersection", PLG)],
     "Lines passing within the tolerance of a vertex without hitting it are checked for structure only.",
     ["PolygonDecomposition.add_line"])

prop("C05", "Segments around a vertex are kept in angular order",
     "Inserting a direction at a vertex finds the neighbouring segments in angular order, for any directions including axis-aligned, "
     "nearly opposite and nearly equal ones, and iterating the segments of a point lists all of them clockwise exactly once.",
     ["inputs"], "every direction vector against vertices of degree 1 to 4 with symbolic directions",
     "Angle comparisons have branch points (0, pi, equal angles); tests use a few axis-aligned directions.",
     ["src/bgem/polygons/point.py", "src/bgem/polygons/segment.py"], [("Point.insert_vector", "src/bgem/polygons/point.py"),
      ("Point.segments", "src/bgem/polygons/point.py")], "", ["Point.insert_vector", "Point.segments"])

prop("C06", "Undo of any edit restores the previous decomposition and redo repeats it",
     "For every public edit of a decomposition, undoing it restores the previous points, segments, polygons, free points and attributes "
     "(up to renumbering of objects) and redoing it gives again the state after the edit, however the operations are interleaved.",
     ["inputs", "histories"], "every edit of the listed kinds on every start shape with symbolic coordinates, undo and redo sequences up to the bound",
     "Tests undo one fixed scenario; the inverse operation depends on which topological case was taken.",
     POLY + ["src/bgem/undo.py"], [("undoable/inverse pairs", PLG + ":_add_point,_add_segment,_rm_*,_split_segment,_join_segments")],
     "", ["undo.undo", "undo.redo", "graph, owners and attributes of the decomposition"])

prop("C07", "The undo stack behaves as a list with a position",
     "Any history of undoable actions, groups, undos, redos, save points and clears behaves as a list of actions with a current position: "
     "a new action discards the redo part, a group is one action, undo and redo move by one action and run the inverses in the right order, "
     "counts and texts describe the neighbours, and the changed flag is true exactly when the state differs from the last save point.",
     ["histories"], "every operation sequence up to the bound, operation kinds chosen symbolically",
     "The tests run a few scripted sequences.",
     ["src/bgem/undo.py"], [("Stack, Group, _Action", "src/bgem/undo.py")], "", ["undo.stack()"])

prop("C08", "Reported polygon changes and attributes follow the actual change",
     "After each edit the reported polygon change names the kind of change and the polygons actually affected (added, removed, split, joined "
     "or only reshaped), and attributes of objects survive edits: parts of a split segment inherit its attribute and unaffected objects keep theirs.",
     ["inputs", "histories"], "every elementary edit on every start shape with symbolic coordinates",
     "Tests assert the report for a few fixed edits.",
     POLY, [("last_polygon_change", DEC), ("set_attr", PLG)], "", ["get_last_polygon_changes", "attr of points, segments, polygons"])

prop("C09", "The box lookup never loses the nearest object",
     "For every set of registered boxes and every query point, each box left out of the closest candidates is no nearer than the farthest point "
     "of some returned box; the intersection candidates are exactly the registered boxes that meet the query box; removed boxes are never "
     "returned and replaced boxes count with their new extent, also after the table grows.",
     ["inputs", "histories"], "all positions and sizes of up to three boxes and all query points or boxes; removals, replacements, id gaps",
     "The tests use one random set; the bound between the norms matters only for particular placements.",
     ["src/bgem/polygons/aabb_lookup.py"], [("closest_candidates, intersect_candidates, make_aabb", "src/bgem/polygons/aabb_lookup.py")],
     "", ["AABB_Lookup.closest_candidates", "AABB_Lookup.intersect_candidates"])

prop("C10", "A displacement is accepted only if it collides with nothing; moving is exact",
     "Checking a displacement of a group of points answers no whenever a moved point's path or a moved segment in its new place properly crosses "
     "a segment bounding one of the polygons along the moved segments, answers yes when nothing is crossed at all, reports those polygons, and changes "
     "nothing; moving points shifts exactly those points and keeps the rest of the subdivision, its direction vectors and its lookup current.",
     ["inputs"], "every displacement vector in a box for the listed groups of points and start shapes",
     "Tests try three displacements on one drawing.",
     POLY, [("check_displacment, move_points", PLG)],
     "Touching without crossing is not constrained; objects swept over without any crossing are outside (documented limitation in the code).",
     ["check_displacment", "move_points", "get_last_polygon_changes"])

prop("C11", "Intersected decompositions are the common refinement with correct maps",
     "Intersecting decompositions gives a decomposition whose segments are exactly the pieces of the input segments, and the returned maps send each "
     "new point, segment and polygon to the input object it is a part of, with nothing missing and nothing mapped that has no original; inputs stay unchanged.",
     ["inputs"], "families of two and three start shapes under a symbolic shift, including all coincidences of vertices and segments, in both orders",
     "Tests intersect a few fixed pairs and mostly check that it runs; coincidences appear only at special shifts.",
     ["src/bgem/polygons/merge.py"] + POLY, [("intersect_single, intersect_decompositions", "src/bgem/polygons/merge.py")],
     "Objects closer than 1e-4 without coinciding are excluded.", ["intersect_decompositions"])

prop("C12", "A decomposition rebuilt from stored lists equals the original",
     "Rebuilding a decomposition from its points, segment end points, boundary loops (listed from any segment) and free points gives the same subdivision: "
     "the same polygons with the same boundaries, holes, nesting and free points.",
     ["inputs"], "all start shapes with symbolic shear, any segment deleted before, every loop listed from any of its segments",
     "No test rebuilds a decomposition with holes or dendrites from every possible start segment.",
     POLY, [("make_segment, make_wire_from_segments, make_polygon, set_wire_parents", PLG)], "",
     ["make_segment", "make_polygon", "set_wire_parents"])

prop("C13", "Object ids are unique and stable",
     "In any history of additions and removals every live object of an id map is found under its own id, ids of live objects never change, and a new object never "
     "takes the id of a live one; released ids are given again, the last released first (the undo of an edit relies on it).",
     ["histories"], "every sequence of additions and removals up to the bound, operation chosen symbolically",
     "Tests never mix reuse of freed ids with explicit histories.",
     ["src/bgem/polygons/idmap.py"], [("IdMap", "src/bgem/polygons/idmap.py")], "", ["IdMap.append", "IdMap.remove"])

BS = "src/bgem/bspline/bspline.py"
APX = "src/bgem/bspline/bspline_approx.py"

prop("C14", "Spline basis functions form a local partition of unity",
     "For every knot vector and parameter of the domain the basis functions are non-negative, vanish outside their supports, sum to one, are polynomials of "
     "the degree of the basis between knots, join with the continuity given by the knot multiplicity, and the ends of the domain interpolate.",
     ["inputs"], "every parameter of the domain, ends included; degrees 0 to 4, symbolic simple knots and fixed vectors with multiple knots",
     "Tests sample equidistant knots; zero-length intervals and the right end of the domain need particular parameters.",
     [BS], [("SplineBasis.eval, _basis, eval_vector", BS)], "", ["SplineBasis.eval", "SplineBasis.eval_vector", "SplineBasis.eval_base_vector"])

prop("C15", "Knot interval lookup and local basis vectors agree with the global basis",
     "For every parameter the found knot interval is one of non-zero length that contains it (the last one at the end of the domain), and the local vectors "
     "of basis values and derivatives are exactly the values of the functions that are non-zero on that interval, all others being zero.",
     ["inputs"], "every parameter including the knots and the domain ends; lengths of knot vectors up to the bound; symbolic knot spacings",
     "The lookup is a search by the position of the parameter among knots; ties appear only at knots.",
     [BS], [("find_knot_interval, eval_base_vector, eval_diff_base_vector, check", BS)], "", ["find_knot_interval", "eval_base_vector"])

prop("C16", "Derivatives of basis functions are the derivatives",
     "The reported derivative of every basis function at every parameter equals the derivative of the polynomial the function is on that knot interval, "
     "for single functions and for local vectors; derivatives sum to zero.",
     ["inputs"], "every parameter inside knot intervals, derivative by comparison of polynomial coefficients; degrees 0 to 4",
     "Tests compare with finite differences at sample points of equidistant bases.",
     [BS], [("eval_diff, fn_diff, eval_diff_base_vector", BS)], "", ["SplineBasis.eval_diff", "eval_diff_base_vector"])

prop("C17", "Knot vectors and bases are built as requested and survive packing",
     "An equidistant basis has the requested number of equal intervals on the requested range with full end multiplicity; packing knots with multiplicities and "
     "unpacking gives the same vector; linear poles reproduce the identity; knot vectors without full multiplicity at both ends are refused.",
     ["inputs"], "any range ends (also integers), interval counts and degrees up to the bounds",
     "Tests use the unit range.",
     [BS], [("make_equidistant, make_from_packed_knots, pack_knots, make_linear_poles", BS)], "", ["SplineBasis.knots", "make_linear_poles"])

prop("C18", "Spline curves: value, hull, boxes and end points",
     "A curve evaluates to the (weighted, normalized) combination of its poles for every parameter, in all evaluation forms; it stays in the hull of the poles "
     "of its knot interval and in the reported boxes, commutes with affine maps, interpolates its end poles, and the rational arc lies on the circle.",
     ["inputs"], "every parameter, poles and positive weights within the boxes",
     "Tests plot curves and compare few values.",
     [BS], [("Curve", BS)], "", ["Curve.eval", "Curve.eval_array", "Curve.aabb", "Curve.eval_local"])

prop("C19", "Spline surfaces: value, hull, boxes, patches and copies",
     "A surface evaluates to the (weighted, normalized) tensor combination of its poles in all evaluation forms, interpolates its corners, stays in the boxes of its patches, "
     "commutes with affine maps, patch numbers and patch positions are inverse to each other, and a deep copy shares nothing with the original.",
     ["inputs"], "every pair of parameters, poles and positive weights within the boxes, degree pairs up to 3",
     "Tests plot surfaces and compare few values of equal degrees, where exchanged directions do not show.",
     [BS], [("Surface", BS)], "", ["Surface.eval", "Surface.eval_array", "Surface.aabb", "Surface.patch_id2pos"])

prop("C20", "Z surfaces: evaluation forms, transforms, copies and boxes agree",
     "A surface given by a quad and a height function maps the unit square onto the quad (also bilinear), its inverse map inverts it, all ways of evaluation and "
     "the equivalent full surface give the same point, transforms act about the center of the original surface, replace each other and do not leak between copies, and the box is tight.",
     ["inputs", "histories"], "any parallelogram or bilinear quad, Z poles, matrix, shift, scale and parameter; sequences of transform, copy and apply",
     "Tests apply one transform to the unit square and compare a few points.",
     [BS], [("Z_Surface", BS)], "Matrices are symbolic only for fixed or bilinear quads (determinants of a symbolic quad and matrix are not decided).",
     ["Z_Surface.eval", "eval_array", "eval_xy_array", "z_eval_array", "make_full_surface", "aabb"])

prop("C21", "Grid surfaces: detection, refusal of irregular grids, interpolation, transforms",
     "From a list of points of a regular grid the shape and envelope are found, any list that is not a regular grid is refused, all ways of evaluation give the bilinear "
     "interpolation of the grid heights, transforms act about the center and replace each other, and the box is that of the grid.",
     ["inputs"], "any grid origin, step and shear, any heights and parameters; any displacement of one point, row or column",
     "Tests use one grid; which irregularities are noticed depends on the moved point.",
     [BS], [("GridSurface", BS)], "", ["GridSurface.shape, quad", "eval_array", "z_eval_array", "z_eval_xy_array", "aabb"])

prop("C22", "Lines, planes and bilinear surfaces as splines reproduce their definition",
     "Splines made from two, three or four points are exactly the line, plane or bilinear surface of these points over the whole extended parameter range, for any overhang, "
     "for integer and real points, without changing the arguments; a curve fitted to a point sequence starts and ends in the end points of the sequence.",
     ["inputs"], "any points, overhang and parameters",
     "Tests plot the surfaces with zero overhang.",
     [APX], [("line, plane_surface, bilinear_surface, curve_from_grid", APX)], "", ["returned Curve / Surface"])

prop("C23", "Surface approximation is the least squares minimum over the points in the quad",
     "The fitted surface minimizes the weighted squares of height differences over the points in the quad plus the scaled energy of the gradient; points outside have no influence; "
     "the reported error is the maximal difference; the default numbers of intervals follow the side lengths and keep less unknowns than points.",
     ["inputs"], "any heights; any positions for the filter and for the rows of the system; weights; quads; small numbers of intervals",
     "Tests check that the error of one smooth function is small; wrong weights or indices degrade the fit slightly.",
     [APX], [("SurfaceApprox", APX)], "The sparse solver and norms of scipy are replaced by exact elimination and traces (normalization only).",
     ["SurfaceApprox.compute_approximation", "SurfaceApprox.error"])

prop("C24", "Default quad: convex hull and smallest bounding rectangle",
     "The hull of a point set is a closed convex polygon of points of the set with all points inside, and the bounding rectangle has right angles, contains all points, is oriented "
     "counter-clockwise and is the smallest one among those flush with a hull edge.",
     ["inputs"], "any position of one to three further points added to fixed sets, any order of the list",
     "Tests use random points, where ties of coordinates never happen.",
     [APX], [("convex_hull_2d, min_bounding_rect", APX)], "", ["convex_hull_2d", "min_bounding_rect", "compute_default_quad"])

ISE = "src/bgem/bspline/isec_surf_surf.py"
BRW = "src/bgem/bspline/brep_writer.py"
prop("C25", "Curve and surface intersections: points lie on both, crossings are found",
     "A reported intersection point is on the curve and on the surface up to the tolerance, with parameters inside of the intervals it is reported for; every transversal crossing of a line "
     "with a planar spline patch, and of the main curves of a plane with another plane, is reported, also on knots; parallel lines give no failure. Points know exactly the patches or intervals "
     "they touch and whether they are on the boundary; main curves lie in their surface.",
     ["inputs"], "any position of the line or plane along one direction (three in the thorough tier), tolerance, all patches and intervals; any poles for derivatives, main curves and patch sets",
     "The tests of the intersections only plot; whether Newton's iteration clips or meets a knot depends on the position.",
     ["src/bgem/bspline/isec_curve_surf.py", ISE, "src/bgem/bspline/surface_point.py", "src/bgem/bspline/curve_point.py"],
     [("IsecCurveSurf", "src/bgem/bspline/isec_curve_surf.py"), ("_main_curves, get_intersections, make_patch_point_list", ISE),
      ("SurfacePoint", "src/bgem/bspline/surface_point.py")],
     "Completeness only for planes and lines (represented by degree 2 splines); joining of the points to curves is unfinished in the code and not claimed.",
     ["IsecCurveSurf.get_intersections", "IsecSurfSurf.get_intersections", "SurfacePoint.patch_id"])

prop("C26", "The BREP text written for a model denotes that model",
     "Read by the rules of the BREP format, the written text contains exactly the shapes of the model with their kinds, flags, tolerances, coordinates, references, orientations and locations, "
     "sharing preserved, references only backwards, and the given curves and surfaces; faces without a surface get the plane or bilinear surface of their vertices and every edge the straight line "
     "between its vertices on it. Writing again gives the same model. Open wires and wrong kinds of subshapes are refused.",
     ["inputs", "histories"], "any vertices, poles, weights, locations, tolerances; all orientations and starts of the wires; given topologies",
     "The test writes one cube to a file that nothing reads.",
     [BRW], [("write_model, Shape._dfs, _brep_output", BRW), ("Face.implicit_surface, Edge.implicit_curve, Approx", BRW)],
     "Numbers are written as exact tokens; OpenCASCADE itself is not run.", ["text of write_model", "Wire.is_closed", "Approx.plane, Approx.bilinear"])

GIO = "src/bgem/gmsh/gmsh_io.py"
HEAL = "src/bgem/gmsh/heal_mesh.py"
prop("C27", "Meshes survive the text mesh format",
     "Reading a mesh written as MSH text (format 1 or 2) gives exactly its nodes, elements with types, tags and node lists, and physical names; writing it and reading it again gives the same "
     "mesh; sections that are not known, blank lines and other layout are passed over. Field data are written with the values, components and element numbers given, for chosen elements in their order.",
     ["inputs"], "any numbers, coordinates and values; listed element types, numbers of tags and layouts",
     "Tests compare one or two files with plain names and full elements.",
     [GIO], [("GmshIO.read, write_ascii, write_fields, write_element_data", GIO)], "Binary files are not read by the code on Python 3 and not claimed; numbers are exact tokens.",
     ["GmshIO.nodes, elements, physical", "written files"])

prop("C28", "Sizes and qualities of mesh elements",
     "Edge vectors and lengths, face normals and areas, areas and volumes of lines, triangles and tetrahedra are those of geometry; gamma is the normalised ratio of inscribed and circumscribed radius, "
     "the gradient error indicator, the ratio of edges and the flatness have their values from the definition, do not depend on numbering of nodes, scale and place, are one (the known value) for regular "
     "elements and zero for flat ones without a failure. Quality statistics count every triangle and tetrahedron once in its bin and list exactly the bad ones.",
     ["inputs"], "any points for sizes and for one node of a triangle; tetrahedra of fixed shape with any size, place and numbering of nodes; any quality for the statistics",
     "No test computes these numbers; a wrong pairing of edges with faces is invisible on symmetric elements.",
     [HEAL], [("ShapeBase, Triangle, Tetrahedron", HEAL), ("HealMesh.quality_statistics", HEAL)], "Upper bound of tetrahedron qualities is not decided.",
     ["Tetrahedron.gmsh_gamma", "smooth_grad_error_indicator", "flat_indicator", "small_edge_ratio", "face_areas", "quality_statistics"])

prop("C29", "Healing keeps the mesh consistent and repairs only what is bad",
     "After any sequence of public modifications (adding, removing elements, adding, moving, merging nodes) every node knows exactly the elements with it, elements refer to existing nodes, numbers are "
     "unique, duplicates are refused, a merge puts the node to the middle, drops the elements of the contracted edge and keeps all others. Healing leaves good elements and their nodes as they are, removes "
     "elements with repeated nodes and repeated elements, merges nodes nearer than the tolerance, replaces a flat tetrahedron by splitting its neighbours with volume and orientation kept, and "
     "a flat triangle by projecting its node and splitting the elements of the longest edge; it never fails on those.",
     ["inputs", "histories"], "any place of moved and added nodes, any two (three) modifications of a mesh with all kinds of elements; one-parameter families of bad elements",
     "The tests heal sample meshes and look at statistics only.",
     [HEAL], [("HealMesh.add_element, merge_node, move_node, common_elements", HEAL), ("heal_mesh, _heal_quad_flat_case, _heal_triangle_flat_case, _check_flat_triangle", HEAL)],
     "Tetrahedra flat only approximately need a general singular value decomposition; qualities are replaced in the flat tetrahedron jobs.",
     ["HealMesh.mesh.elements, nodes", "HealMesh.node_els", "heal_mesh"])

FLD = "src/bgem/gmsh/field.py"
OPT = "src/bgem/gmsh/options.py"
GM = "src/bgem/gmsh/gmsh.py"
prop("C30", "Mesh size fields, options, shapes and transforms reach gmsh as meant",
     "The mesh size field made for gmsh has at every point the documented value: threshold with its lower and upper bound (without an upper bound the lower value), box, constant, minimum, maximum, distances, "
     "restriction exactly to the given objects (with their boundary if asked). A known option is set to the given value under its full name, an unknown name or a wrong type is refused and changes nothing. "
     "Rectangle, box, cylinder, polygon, simplex have the given size, center, vertices and mesh steps, are visible after synchronize and leave arguments unchanged. "
     "Translate, scale, rotate, copy and make_fractures move the objects by the composed map. Mass, center of mass and removal of small objects are right for any masses. Files are written from the current model under the given name and format.",
     ["inputs", "histories"], "any numbers for sizes, places, bounds, values, masses; sequences of two (three) transforms",
     "No test makes a field or an option; the gmsh tests are pictures of fixed models.",
     [FLD, OPT, GM], [("threshold, box, constant, min, max, distance_nodes, distance_edges, restrict", FLD), ("OptionsBase", OPT),
                      ("GeometryOCC.rectangle, box, cylinder, make_polygon, make_rectangle, make_simplex, make_fractures", GM),
                      ("ObjectSet.translate, rotate, scale, copy, mass, center_of_mass, remove_small_mass", GM)],
     "The module gmsh is a recording stand-in; rotations are any matrices of their axis and angle.", ["calls of gmsh.model.mesh.field", "gmsh.option", "ObjectSet"])

prop("C31", "Regions follow objects through operations into physical groups",
     "Every entity of an object set has a region of its dimension. Group, fragment, cut, intersect, split, copy, select give objects of exactly the expected cells, each with the regions of the object it comes from; "
     "tools and originals are kept unchanged where documented and consumed objects are unusable. Boundaries (single, combined, by region) consist of the right entities with their regions. The mesh gets for every "
     "region one physical group of exactly its entities, group names are unique, a name used once is kept; shapes that are not meshed and bound nothing are removed.",
     ["inputs", "histories"], "any overlap of the objects in a complex of three cells, dimensions 3 and 2, shared, repeated and default regions; two (three) operations, then the mesh",
     "No stable test uses the geometry interface; the tests that do are fixed drawings with no assertion about regions.",
     [GM], [("ObjectSet", GM), ("GeometryOCC.group, fragment, _assign_physical_groups, make_mesh, keep_only", GM)],
     "The geometry kernel is a stand-in of set operations over a cell complex; operations that consume entities shared with another object set are outside.",
     ["ObjectSet.dim_tags, regions", "physical groups at mesh generation"])
