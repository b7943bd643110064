NOT_APPLICABLE = []

prop("C01", "B-spline basis functions equal their definition everywhere",
 "For every legal knot vector, degree and parameter of its range the returned basis values are those of the Cox-de Boor recurrence: one value per control point, non-negative, zero outside each function's support, and summing to one over the spline's domain. At both ends of a clamped vector exactly the first and the last function are one, even when rounding has put the parameter a hair outside.",
 "all non-decreasing knot vectors with interior multiplicity up to the degree plus one, also nearly repeated knots (clamped, half clamped, unclamped, repeated knots), degrees 0..6, all parameters including knots, ends and one ulp beside them",
 "the tests evaluate one cubic Bezier vector at three parameters; repeated knots, unclamped vectors, span borders and other degrees are never evaluated",
 ["src/knot.rs"], [("span lookup", "src/knot.rs span_index"), ("triangular scheme", "src/knot.rs bspline_basis")],
 "runtime monitoring: reference model (Cox-de Boor) on every evaluation",
 "Every basis value of the sampled knot vectors is compared with an independent Cox-de Boor evaluation (1e-9) and the partition-of-unity, support and end invariants are monitored.")

prop("C02", "Knot vectors behave as sorted lists of values with multiplicities",
 "Building a knot vector from values and multiplicities, asking its range, spans, multiplicities and the span of a parameter, normalising it to 0..1, dropping its end knots, and the standard Bezier and uniform vectors all agree with plain list arithmetic. The span reported for a parameter is never empty and contains it, the last value belonging to the last non-empty span. Inserting a knot keeps the list sorted, adds exactly that one value and reports the position it now has.",
 "all knot vectors with repeated values and histories of insertions of any value (inside, equal to existing knots, at and beyond the ends)",
 "the tests look at three standard vectors only; no insertion, multiplicity or span lookup on repeated knots is tested",
 ["src/knot.rs"], [("construction and queries", "src/knot.rs KnotVector"), ("insertion", "src/knot.rs add_knot")],
 "runtime monitoring: list model compared after every operation of insertion histories",
 "Every query and every step of random insertion histories is compared with a list model, exactly.", over=("inputs", "histories"))

prop("C03", "Curve evaluation returns the point its defining formula gives",
 "A Bezier or B-spline curve, polynomial or rational (homogeneous control points with weights), evaluates at every parameter of its domain to the weighted combination of its control points that defines it, whatever degree and knot vector, and starts and ends at its first and last control point when clamped. Lines, circles and polylines evaluate to origin plus scaled direction, to the rotated radius vector, and to the point at that fraction of the length.",
 "degrees 1..6 and now and then up to 14, up to hundreds of control points, all knot kinds, uneven positive weights, all parameters incl. knots and ends, coordinates of several scales and offsets",
 "the test suite evaluates no curve against expected points; examples only write files",
 ["src/basis.rs", "src/curve/bezier.rs", "src/curve/bspline.rs", "src/curve/line.rs", "src/curve/circle.rs", "src/curve/polyline.rs"],
 [("evaluation", "src/curve/*.rs get_point"), ("Bernstein recurrence", "src/basis.rs bernstein")],
 "runtime monitoring: reference evaluation in independent arithmetic on every call",
 "Every evaluated point is compared with the closed formula (Bernstein binomials, Cox-de Boor, de Casteljau, Rodrigues rotation), relative 1e-9.")

prop("C04", "Surface evaluation returns the point its defining formula gives",
 "A Bezier or B-spline surface, polynomial or rational, evaluates at every (u,v) of its domain to the tensor product combination of its control grid, u running over the rows and v over the columns, with independent degrees and knot vectors. Its corners are the corner control points when clamped, and uniformly clamped construction equals explicit construction.",
 "non-square control grids, degrees 1..5 (now and then higher) chosen independently, different knots in u and v, all parameters incl. knots and corners",
 "the only surface tests write files that nobody compares; swapping rows and columns on square grids goes unnoticed",
 ["src/surface/bezier.rs", "src/surface/bspline.rs", "src/basis.rs"], [("evaluation", "src/surface/*.rs get_point"), ("construction", "src/surface/bspline.rs new, uniform_clamped")],
 "runtime monitoring: reference tensor product evaluation on every call",
 "Every evaluated point is compared with an independent tensor product evaluation, relative 1e-9.")

prop("C05", "Derivative curves and surfaces are the true derivatives",
 "The derivative of a polynomial Bezier curve, B-spline curve or B-spline surface (by u or by v, repeatedly) evaluates everywhere inside the domain to the exact derivative of the original, and mixed derivatives in either order agree. Where a function is constant in a direction its derivative is zero everywhere.",
 "degrees 0..5 (now and then up to 14), all knot kinds incl. repeated interior knots, non-square grids, all parameters away from kinks",
 "no test differentiates anything; errors only shift projections slightly",
 ["src/curve/bezier.rs", "src/curve/bspline.rs", "src/surface/bspline.rs"], [("derivative", "derivative, derivative_u, derivative_v")],
 "runtime monitoring: exact dual-number differentiation of the definition as oracle",
 "Each derivative value is compared with dual-number differentiation of the defining recurrence.")

prop("C06", "Refining, splitting, clamping and decomposing keep the curve's shape",
 "Inserting knots, clamping the ends and converting to Bezier pieces leave every point of a B-spline curve where it was, parameter by parameter; splitting gives two clamped curves of the same degree that together trace the original and meet at the split point. The Bezier pieces come in order, one per non-empty knot span, and join end to start; knot and control point counts stay consistent.",
 "degrees 1..6 (now and then up to 14), all knot kinds, histories of insertions, splits at knots of any multiplicity and inside spans, knots and splits close to each other",
 "the tests never refine or split a curve",
 ["src/curve/bspline.rs", "src/knot.rs"], [("knot insertion", "src/curve/bspline.rs add_knot"), ("split", "src/curve/bspline.rs split"), ("clamp and Bezier pieces", "src/curve/bspline.rs clamp, to_piecewise_bezier")],
 "runtime monitoring: metamorphic comparison with the original curve after every operation",
 "After every operation of a random history the whole curve is compared with the original on a parameter sweep.", over=("inputs", "histories"))

prop("C07", "Projecting a point onto a curve finds its nearest parameter",
 "For a point on a line, circle, polyline, Bezier or clamped B-spline curve the projected parameter evaluates back to that point; for any point near or far, lines, circles, polylines and first degree curves return the truly nearest point, and smooth curves never return a parameter outside their range or a point farther away than every coarse sample, also where some knot spans are much shorter than others. Projection of any finite point gives a finite parameter.",
 "all curve kinds over scales and frames, direction vectors of any length, repeated polyline vertices, query points on the curve, at vertices, corners, ends and far away",
 "the tests project two points and print the result",
 ["src/curve/line.rs", "src/curve/circle.rs", "src/curve/polyline.rs", "src/curve/bezier.rs", "src/curve/bspline.rs", "src/utils.rs"],
 [("closed form projections", "src/curve/*.rs project"), ("sampled Newton iteration", "src/utils.rs find_nearest_parameter")],
 "runtime monitoring: distance oracle by exhaustive sampling and closed forms",
 "Distances of projected points are compared with closed forms or dense sampling.")

prop("C08", "Projecting points onto surfaces inverts evaluation",
 "Projecting a point of a plane, a cylinder or a gently curved B-spline surface gives parameters, inside the surface's range, that evaluate back to the point; for points off the surface the foot is the nearest surface point. The cylinder's ring map and its inverse are inverse to each other for points on the cylinder.",
 "frames in general position, angles in all quadrants and on the seam, unequal u/v grids and ranges, points on and off the surface",
 "one test maps one half cylinder to the ring and back in one direction; other projections are untested",
 ["src/surface/plane.rs", "src/surface/cylinder.rs", "src/surface/bspline.rs", "src/utils.rs"],
 [("projection", "src/surface/*.rs project, project_points"), ("ring map", "src/surface/cylinder.rs project_to_ring, generate_point_from_ring")],
 "runtime monitoring: round trip and nearest-point oracle",
 "Round trips and distances are checked on random frames and surfaces.")

prop("C09", "Circular edges sweep the arc between their ends in the given sense",
 "For a circle the parameter range refined for an edge starts and ends at the given points, runs upwards when the edge has the curve's sense and downwards otherwise, and spans more than nothing and at most one full turn; equal ends mean the full circle. The same holds where the ends of an edge lie at the seam of a closed B-spline or polyline; other curves keep their range, and going through a boxed curve changes nothing.",
 "start and end angles in all quadrants, across the seam, equal, both senses, random frames and radii",
 "one test prints the points of one arc",
 ["src/curve/circle.rs", "src/curve.rs"], [("range refinement", "src/curve/circle.rs refine_parameter_range"), ("forwarding", "src/curve.rs impl Curve for Box")],
 "runtime monitoring: swept arc followed by fine sampling",
 "The swept arc is followed by fine sampling and compared with the arc the ends and sense determine.")

prop("C10", "Sampled curve segments follow the curve from end to end",
 "The points sampled from a curve segment start and end exactly at its range ends, lie on the curve in order of the parameter, forwards or backwards, without repeated points, and are dense enough that the curve stays close to the chords for the requested tolerance. Sampling ends after a number of evaluations proportional to the points it returns, and no symmetric bend is skipped systematically.",
 "all curve kinds, both directions, tolerances 1e-5..1, sizes 0.02..30, repeated runs with different random probe positions",
 "the tests print sampled points of two segments",
 ["src/curve.rs", "src/utils.rs"], [("adaptive division", "src/utils.rs parameter_division"), ("sampling", "src/curve.rs get_points")],
 "runtime monitoring: instrumented curve records every evaluation, chord deviation checked",
 "An instrumented curve logs every evaluation; order, ends, on-curve and chord deviation are checked on the log.")

prop("C11", "Analytic surfaces satisfy their implicit equations",
 "Points of planes, cylinders, surfaces of revolution, swept surfaces and the umbrella surface lie at the distance, height, angle and offset their parameters say, for every frame, section curve and path. Evaluation behind a boxed surface gives the same point.",
 "frames in general position, all angles, section and path curves of all kinds",
 "the tests write two surfaces to files without comparing a point",
 ["src/surface/plane.rs", "src/surface/cylinder.rs", "src/surface/spin.rs", "src/surface/sweep.rs", "src/surface/umbrella.rs", "src/surface.rs"],
 [("evaluation", "src/surface/*.rs get_point")],
 "runtime monitoring: implicit equations evaluated on every point",
 "Each point is checked against an independent rotation formula and the implicit equation.")

prop("C12", "Surface patches mesh into a complete grid of consistently turned triangles",
 "The mesh of a surface patch has exactly one vertex per grid node, each on the surface at the evenly spaced parameters of the patch, with the range ends hit exactly, and two triangles per cell that cover the grid once: every inner edge is shared by two triangles in opposite direction, all turning the same way. Its point grid has the same points, reversing the winding turns every triangle and nothing else, and a mesh is its own mesh.",
 "every surface kind, u and v divisions 1..24 and unequal, meshes of more than 65535 vertices, ascending and descending ranges",
 "tests use one square and one 64x128 division and compare nothing",
 ["src/face.rs", "src/mesh.rs", "src/surface.rs", "src/utils.rs"], [("patch mesh", "src/face.rs get_triangle_mesh"), ("grid triangles", "src/mesh.rs create_triangles"), ("even division", "src/utils.rs uniform_divide")],
 "runtime monitoring: vertices against the surface, topology by edge matching",
 "Vertices are compared with independent evaluation; triangles by exact edge matching.")

prop("C13", "Mesh normals are unit vectors perpendicular to the surface",
 "The normals of a B-spline patch mesh, one per vertex, have unit length and the direction of the cross product of the u and v tangents, whether the surface is used directly or boxed. Where a boundary row or column collapses into a pole, the vertex still gets a finite unit normal taken from a neighbour.",
 "bent surfaces of all degrees, collapsed first or last rows and columns, bare and boxed",
 "no test looks at normals",
 ["src/surface/bspline.rs", "src/face.rs", "src/surface.rs"], [("normals", "src/surface/bspline.rs get_normals"), ("pole repair", "src/face.rs get_triangle_mesh"), ("forwarding", "src/surface.rs impl Surface for Box")],
 "runtime monitoring: tangent cross product from exact differentiation as oracle",
 "Each normal is compared with the exactly differentiated tangents.")

prop("C14", "Geometry helpers agree with their geometric meaning",
 "Polygon orientation and vertex convexity, point to segment distance in 2D and 3D, point in triangle, nearest point in lists and grids, extremes by key, clamping into ranges given in either order and even division of ranges return what their definitions say, away from the stated tolerance bands. Ties go to a point that really is nearest.",
 "simple polygons of nine families with any start vertex and direction, random, aligned and repeated points, ascending and descending ranges",
 "tests print single results for three helpers",
 ["src/utils.rs", "src/utils/point.rs", "src/utils/polygon.rs"], [("helpers", "src/utils.rs, src/utils/point.rs, src/utils/polygon.rs")],
 "runtime monitoring: direct formulas as oracle on every call",
 "Every helper result is compared with a direct formula.")

prop("C15", "A planar face with one loop is triangulated exactly",
 "For a simple counter-clockwise loop, with straight edges and arcs, in any plane, the triangles of the face cover the polygon of its boundary points once and nothing outside, all turned like the plane's normal, and every boundary point keeps its place. A clockwise loop gives an empty mesh rather than a wrong one.",
 "nine polygon families incl. combs, spirals and tangled outlines, collinear points, any start vertex and plane, edges given in any parametrisation",
 "no test triangulates a planar face",
 ["src/surface/plane.rs", "src/utils/polygon.rs", "src/surface.rs"], [("ear clipping", "src/utils/polygon.rs trianglate_polygon"), ("boundary polygon", "src/surface.rs to_polygon"), ("convex fan", "src/surface/plane.rs trim")],
 "runtime monitoring: area, winding and point location of every triangulation",
 "Each triangulation is judged by area, winding, containment of each triangle and location of random points.")

prop("C16", "A planar face with holes is triangulated exactly",
 "For a simple counter-clockwise outline with disjoint clockwise holes the triangles of the face cover the region between them once, nothing inside a hole and nothing outside, all turned like the plane's normal, in whatever order the loops are listed.",
 "1..8 holes of several shapes incl. aligned rows, arcs and discs, in all outline families, loops in any order, holes joined to the border by an edge used both ways",
 "no test triangulates a face with holes",
 ["src/surface/plane.rs", "src/utils/polygon.rs"], [("hole bridging", "src/utils/polygon.rs merge_polygons"), ("ear clipping", "src/utils/polygon.rs trianglate_polygon")],
 "runtime monitoring: area, winding and point location of every triangulation",
 "Each triangulation is judged by area, winding, containment of each triangle and location of random points.")

prop("C17", "Advancing front meshes fill plane regions without gaps or overlaps",
 "Meshing a plane region given by a counter-clockwise boundary and clockwise holes always ends, keeps the boundary points as the first vertices, and covers the region once: every boundary edge belongs to exactly one triangle, every other edge to two that turn the same way, no triangle lies outside. Points the mesher adds lie inside the region.",
 "ellipses, rectangles, rings, lattice shapes, stars, combs, spirals and random outlines with 0..5 holes, even, uneven and coarse boundary spacing, exact and slightly shaken, flattened, rotated, moved, scaled; sides divided finely with near-collinear points",
 "one test meshes ten points and writes a file nobody looks at",
 ["src/utils/meshgen.rs"], [("front advance", "src/utils/meshgen.rs generate_triangular_mesh"), ("node choice", "src/utils/meshgen.rs find_intersection_with_front")],
 "runtime monitoring: mesh judged by edge matching, area and point location; CPU watchdog",
 "Every mesh is judged by exact edge matching, area and point location; a call that uses 25 CPU seconds counts as not ending.")

prop("C18", "Trimmed cylinder faces are meshed on the cylinder inside their loops",
 "The mesh of a cylinder face cut out by loops keeps every boundary point, puts every added vertex on the cylinder, covers the region between the loops once in the unrolled or ring view and nothing else, and turns all triangles the way the loops run, so that reversing all loops reverses them. This holds for faces around the full circumference, with holes, and wherever the axis origin lies.",
 "patches, staircases, combs, stars, random outlines with 0..4 holes, sleeves between two circles with and without windows, seam edges, both directions, axis origin anywhere",
 "the one test repeats the mapping on one half cylinder without calling the trimming code",
 ["src/surface/cylinder.rs", "src/utils/meshgen.rs", "src/surface.rs"], [("ring map", "src/surface/cylinder.rs trim"), ("front mesher", "src/utils/meshgen.rs")],
 "runtime monitoring: vertices against the cylinder, mesh judged by edges and area",
 "Every vertex is checked against the implicit equation, every mesh by edge matching, area and point location.")

prop("C19", "Trimmed B-spline faces are meshed on the surface inside their loops",
 "The mesh of a B-spline face cut out by loops keeps every boundary point, puts every added vertex on the surface, covers the region between the loops once in parameter space and nothing else, and turns all triangles the way the loops run, so that reversing all loops reverses them. Meshing leaves no files behind.",
 "height fields of degrees 1..3 anywhere in space, the whole domain and polygons of eight shapes with 0..3 holes, both directions",
 "no test trims a B-spline surface",
 ["src/surface/bspline.rs", "src/utils/meshgen.rs", "src/surface.rs"], [("projection of the boundary", "src/surface/bspline.rs project_points, trim"), ("front mesher", "src/utils/meshgen.rs")],
 "runtime monitoring: vertices against the surface, mesh judged by edges and area",
 "Every vertex is checked against an independent evaluation, every mesh by edge matching, area and point location; the working directory is watched.")

prop("C20", "Wavefront OBJ files hold exactly the meshes that were saved",
 "An OBJ file written from a mesh, from meshes one after another, or from a model of any number of faces is legal, lists every vertex and normal with exactly its value, and its faces refer, across all meshes of the file and whether or not each of them has normals, to the vertices and normals the meshes' triangles refer to. A boundary is written as its points and one closed line through them.",
 "0..6 meshes with and without normals mixed in any order, any finite coordinates, more than 65535 vertices, longer files in the place of the new one",
 "one test writes one file that nothing reads",
 ["src/mesh.rs", "src/model.rs", "src/surface/bspline.rs"], [("bounds", "src/surface/bspline.rs save_bound_as_obj"), ("writer", "src/mesh.rs write_obj, save_as_obj"), ("running offsets", "src/model.rs save_as_obj")],
 "runtime monitoring: files read back by an independent parser and compared exactly",
 "Every file is parsed independently; counts, values and every face reference are compared with the meshes.")

prop("C21", "Binary STL files hold exactly the triangles that were saved",
 "An STL file written from a model is 84 + 50 n bytes long, has an 80 byte header that does not look like the text form, the count n of all triangles of all faces, and then every triangle in order with its corners in single precision and a zero or true normal, whatever the file is called and whatever was there before.",
 "0..6 meshes and patch models, file names short, long, non-ASCII and without extension, longer files in the place of the new one",
 "no test writes an STL file",
 ["src/model.rs"], [("writer", "src/model.rs save_as_stl")],
 "runtime monitoring: files read back by an independent parser and compared exactly",
 "Every file is parsed independently; length, header, count and every corner are compared with the meshes.")

prop("C22", "SVG drawings show the model's curves",
 "An SVG file written from a model has one path per polycurve, on a page of the given size with the y axis pointing up from the lower edge. Each path runs from start to end along its segments, drawing just the part of each curve its parameter range selects, in its direction, within the sampling tolerance and the two decimals written.",
 "polycurves of joined lines, arcs, polylines, Bezier and B-spline curves of degrees 1..5, whole, partial and backward ranges, pages of any size",
 "no test writes an SVG file",
 ["src/model.rs", "src/curve/bspline.rs", "src/utils.rs"], [("path data", "src/model.rs save_as_svg"), ("Bezier pieces", "src/curve/bspline.rs to_piecewise_bezier"), ("sampling", "src/utils.rs parameter_division")],
 "runtime monitoring: drawings read back, flattened and compared with the curves",
 "Every drawing is parsed and flattened independently and compared with densely evaluated segments both ways, in length and at both ends.")

prop("C23", "Point files round-trip exactly",
 "A saved point cloud loads back to the same points, bit by bit. Loading accepts three columns or four with a label first, separated by spaces, commas or tabs, skips comments and lines of other lengths, and reports an error, not a panic and not made up points, for values that are no numbers. Tables of points with normals and of 2D points list every value exactly.",
 "all finite coordinates, mixed separators, number styles, line ends, comments, odd lines, malformed numbers and bytes",
 "no test touches point files",
 ["src/points.rs"], [("reader", "src/points.rs load_point_cloud"), ("writers", "src/points.rs save_*")],
 "runtime monitoring: files generated and read back independently, compared bit by bit",
 "Loaded points are compared bit by bit with what was written; malformed files must not yield other points.")

prop("C24", "Saving never reports success for an incomplete file",
 "Whenever saving points, OBJ, STL or SVG returns Ok, the file holds every byte it would hold without faults; where the system takes only part of the data, has no space or refuses the path, saving returns an error and does not panic. Saving onto a longer file leaves nothing of the old one.",
 "a file size limit at every byte of small files and many of large ones incl. the last and buffer boundaries, a full device, missing directories, paths without names",
 "no test meets a failing write",
 ["src/points.rs", "src/mesh.rs", "src/model.rs"], [("point files", "src/points.rs save_*"), ("OBJ", "src/mesh.rs save_as_obj, src/model.rs save_as_obj"), ("STL", "src/model.rs save_as_stl"), ("SVG", "src/model.rs save_as_svg")],
 "runtime monitoring with injected write faults at every byte position",
 "Faults are injected by the operating system at chosen byte positions and the returned result is compared with the bytes on disk.", over=("inputs", "fault_sequences"))

prop("C25", "Faces read from STEP files are the faces the file describes",
 "Reading a well-formed AP214 file gives every advanced face on a plane, cylinder, B-spline (also rational), Bezier or revolved surface in any entity order and layout: the surface evaluates to the points the file defines, and every bound has the loop's edges (lines, circles, polylines, B-splines) in order, each along its whole curve between its vertices in the direction that edge sense, oriented edge and bound orientation together give. Meshes of plane, cylinder and B-spline faces cover the area within their loops on the side of the face normal; faces on surfaces of other kinds are left out without harm to the rest.",
 "files of 1..4 faces with 0..3 holes; random ids, order, layout, number formats, rounding, default and unnormalised directions, all senses of edges, curves, loops and faces, whole and partial closed curves",
 "no test reads a STEP file",
 ["src/model/step_reader.rs", "src/curve.rs", "src/curve/circle.rs", "src/surface.rs"], [("edges and senses", "src/model/step_reader.rs extract_edge_curve"), ("surfaces", "src/model/step_reader.rs extract_surface"), ("loops and bounds", "src/model/step_reader.rs read_model"), ("placements", "src/model/step_reader.rs axis2_placement_3d")],
 "runtime monitoring: generated STEP files read back and compared with the described geometry",
 "Every edge is evaluated at hundreds of parameters and compared both ways with the described curve; surfaces and meshes are compared with independent evaluations.")

prop("C26", "Composite curves read from STEP files run along the curves described",
 "Reading a well-formed AP214 file gives one polycurve per composite curve, with one segment per composite curve segment in order: a whole polyline or B-spline, or a line, circle, polyline or B-spline trimmed by parameters, by points or both. Each segment covers exactly the described part of its curve, from its first to its last trim in line with the sense agreement, and backwards where the segment's sense says so.",
 "files of 1..3 composite curves of 1..8 segments; all combinations of trims and senses, whole circles, angles in any turn, line vectors of any length, polyline and knot parameters",
 "no test reads a STEP file",
 ["src/model/step_reader.rs", "src/curve/circle.rs", "src/curve.rs"], [("segments", "src/model/step_reader.rs extract_curve_segment"), ("trims", "src/model/step_reader.rs trimming_parameter"), ("parameter ranges", "src/curve/circle.rs refine_parameter_range")],
 "runtime monitoring: generated STEP files read back and compared with the described curves",
 "Every segment is evaluated at hundreds of parameters and compared both ways with the described curve, with its ends and its length.")

prop("C27", "A closed solid read from STEP has a closed skin around its volume",
 "Reading a well-formed AP214 solid, with edges shared between neighbouring faces and whole cylinders bounded by two circles or by one loop along a seam, gives every face with its bounds as described and saving the model as STL gives one skin: its triangles face outwards, the volume they enclose is the volume of the solid and their vector areas cancel, within the sampling tolerance along the edges.",
 "prisms over outlines of 9 shapes with straight and arc sides, holes and tilted tops; discs with round holes; boxes under B-spline height fields; any entity order, layout, senses and rounding",
 "no test reads a STEP file",
 ["src/model/step_reader.rs", "src/model.rs", "src/surface.rs", "src/surface/cylinder.rs", "src/surface/plane.rs", "src/surface/bspline.rs"], [("edges and senses", "src/model/step_reader.rs extract_edge_curve"), ("seams", "src/surface.rs EdgeLoop::to_polygons"), ("meshes", "src/surface/*.rs trim"), ("STL", "src/model.rs save_as_stl")],
 "runtime monitoring: generated STEP solids read, meshed and exported, conservation of volume and vector area checked",
 "The exported triangles are read back independently; signed volume and vector area are conserved quantities no local check sees.")

prop("C28", "Results depend on arguments alone",
 "Every evaluation, refinement, projection, meshing, saving and reading operation gives the same result bit by bit for the same arguments, whatever was computed before with whatever other objects, how often it is repeated, in what order, and from how many threads at once; only sampling bent curves makes random choices. Queries leave the objects they work on, and saving, loading and meshing leave the working directory, as they were, apart from the file asked for.",
 "histories of 8..40 operations of 24 kinds on up to 6 objects differing in one point, knot, weight or shift; alone, in order, repeated, shuffled, on 3 threads; interpreted by Miri in the thorough tier",
 "tests call each function once on one object",
 ["src/knot.rs", "src/curve.rs", "src/surface.rs", "src/utils/meshgen.rs", "src/model.rs", "src/model/step_reader.rs"], [("evaluation", "src/knot.rs bspline_basis"), ("projection", "src/surface/bspline.rs project_points"), ("meshing", "src/utils/meshgen.rs generate_triangular_mesh"), ("files", "src/model.rs save_as_*")],
 "runtime monitoring: differential execution of histories in fresh, shared and threaded processes; Miri",
 "Each operation is executed alone in a fresh process and within histories; result bits, objects and working directory are compared.", over=("inputs", "histories", "schedules"))
