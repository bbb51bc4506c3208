"""Writes /verif/properties.jsonl."""
import json, os
O='src/skspatial/objects/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p('C01','Point, Vector and Points accept exactly the valid arrays, and hold them',
 "Point(x) and Vector(x) succeed exactly when x is a non-empty 1D array of finite numbers, and Points(x) exactly when x is a non-empty, regular 2D array of finite numbers; every other array raises ValueError. Whatever container carries the numbers (list, tuple, ndarray of any memory layout, dtype or writability, another spatial object, nested mixtures of these), the object holds exactly the same values, shape and dtype as numpy.array(x), and its dimension is the number of coordinates. Constructing an object does not change its input and needs only a bounded amount of stack.",
 ['inputs'],'all nested containers / arrays of int, float and bool data, any dimension and size, including empty, ragged, 0D, 3D and non-finite ones',
 'Tests construct a few short lists; the accept/reject boundary, the container forms, dtypes, memory layouts and the position of a non-finite value are never varied.',
 [O+'_base_array.py',O+'point.py',O+'vector.py',O+'points.py'],
 [('shape, emptiness and finiteness checks','_BaseArray.__new__, _BaseArray1D.__new__, _BaseArray2D.__new__'),('dimension','__array_finalize__')],
 ['Point(), Vector(), Points(), .dimension, .dtype'])
p('C02','Array objects stay NumPy arrays with the right type and dimension in any history',
 "Through any sequence of arithmetic, indexing, in-place assignment, rounding, set_dimension, copying and pickling, Point, Vector and Points hold exactly the values that a plain ndarray holds after the same NumPy operations, and dimension always equals the current number of coordinates (the width for Points). Adding, subtracting, negating, scaling and rounding return an object of the (left) spatial type, to_array returns an independent plain ndarray, and round, set_dimension (zero padding, ValueError when shrinking), is_equal and is_close agree with numpy.around, zero padding, numpy.array_equal and elementwise math.isclose without changing the object.",
 ['histories','inputs'],'all sequences of the listed operations on all Point, Vector and Points objects and operands',
 'Tests apply one operation to a handful of arrays; sequences that combine views, copies, rounding, pickling and in-place updates are not run.',
 [O+'_base_array.py'],
 [('type and dimension preservation','_BaseArray.__array_wrap__, __array_finalize__, __setstate__'),('round, set_dimension, is_equal, is_close, to_array','_BaseArray*')],
 ['values, type(), dtype, .dimension after every step'],
 [dict(name='dimension',meaning='number of coordinates, cached on the array object',where='_BaseArray1D/_BaseArray2D')])
p('C03','Computations are pure: no input is changed and no history or input form matters',
 "No method, constructor, class method or function changes the value of the object it is called on, of any argument (arrays, lists or spatial objects) or of an earlier result, and the same call always gives the same result, whatever was computed before and whatever other threads compute at the same time. A computed array is the caller's own: changing it in place changes no argument and no later result. After an object's arrays or attributes are reassigned or updated in place, every later result is the one a freshly built object with the same attributes gives. Giving the same coordinates as a list, tuple, ndarray (any layout, read-only), Point or Vector, or the arguments by their documented keywords, gives the same result.",
 ['histories','inputs'],'all public operations, all argument forms, all interleavings of calls (in one or several threads) and updates of the objects',
 'Each test calls one method once on fresh objects with lists, so hidden caching, aliasing, mutation of inputs and dependence on the argument type stay invisible.',
 ['src/skspatial/objects','src/skspatial/measurement.py','src/skspatial/transformation.py'],
 [('objects hold only their defining data; every result is computed from it','all methods'),('array_like normalisation','Point(...), Vector(...), np.subtract(...) at method entry')],
 ['results and bytes of all arguments and attributes before/after each call'])
p('C04','Composite objects exist only in valid, faithful states',
 "Line, Plane, LineSegment, Triangle, Circle, Sphere and Cylinder, built by constructor or by from_points, from_vectors or from_slope, reject with ValueError exactly the documented degenerate inputs (zero vector, equal endpoints, parallel vectors, collinear points, wrong or mixed dimensions, non-positive or NaN radius), as decided by the default tolerances of numpy.linalg.matrix_rank and math.isclose, and accept all other finite inputs of matching dimension. The object holds exactly the given points, vectors and radius and reports their dimension; Line.from_points and Cylinder.from_points run from the first point to the second, Line.from_slope satisfies y = slope * x + intercept, Plane.from_points and Plane.from_vectors give a 3D plane containing the points, whose normal is AB x AC (respectively a x b), with 2D input padded by zero. A factory called on a subclass gives an object of the subclass. Copying or pickling gives an equal object, and so does evaluating its text (repr) when NumPy prints its coordinates in full.",
 ['inputs'],'all points, vectors, radii and dimensions, including degenerate and scaled ones',
 'Tests list a few accepted and rejected inputs; the accept/reject boundary under scaling, offsets, integer/float forms and dimensions is not explored.',
 [O+'line.py',O+'plane.py',O+'line_segment.py',O+'triangle.py',O+'circle.py',O+'sphere.py',O+'cylinder.py',O+'_base_line_plane.py',O+'_base_sphere.py'],
 [('validation','__init__ of each class'),('factories','from_points, from_vectors, from_slope')],
 ['constructor outcomes, attributes, repr'])
p('C05','Norms, unit vectors, cosines and angles are metrically right',
 "For every non-zero vector, of any dimension and magnitude (well inside the floating range), norm is the Euclidean length (or the order asked for with ord), unit has length one and the same direction, and cosine_similarity lies in [-1, 1] and equals a.b/(|a||b|). angle_between is its arccosine in [0, pi]; angle_signed is the counter-clockwise angle from the vector to the other in (-pi, pi] up to rounding; angle_signed_3d is the right-handed angle about the given positive direction, of magnitude angle_between and negated when the direction is reversed. unit and the cosine and angle between vectors raise ValueError for zero vectors, and the signed angles for wrong dimensions or a direction not perpendicular to both vectors.",
 ['inputs'],'all vectors of dimension 1 and up, integer or float, any relative scale, including parallel, anti-parallel and perpendicular pairs',
 'Parametrised tests check single vectors; symmetry, range, scale invariance, quadrant and the arccos boundary need all pairs.',
 [O+'vector.py'],[('norm, unit, cosine_similarity, angle_between, angle_signed, angle_signed_3d','Vector')],['Vector methods'])
p('C06','Vector relations: zero, parallel, perpendicular, side, cross product',
 "is_zero, is_perpendicular and is_parallel are true exactly for zero vectors, zero dot products and linearly dependent pairs (a zero vector is parallel and perpendicular to all), are symmetric and do not depend on the scale or sign of the vectors, up to math.isclose's default tolerance on the squared norm, dot product and cosine. cross is the right-handed cross product of the vectors padded with zeros to 3D (anti-symmetric, perpendicular to both, of length |a||b|sin), and vectors over 3D raise ValueError; side_vector(other) is 1 when the other vector is to the right (clockwise), -1 to the left and 0 when parallel, in 2D only. different_direction returns a non-zero vector of the same dimension that is not parallel to the vector (for 1D: the opposite direction) and raises ValueError for the zero vector.",
 ['inputs'],'all vector pairs of every dimension, with exact and float coordinates and any scale',
 'A table of pairs cannot cover sign, scale, axis alignment and dimension combinations.',
 [O+'vector.py'],[('is_zero, is_parallel, is_perpendicular, cross, side_vector, different_direction','Vector')],['Vector methods'])
p('C07','Projection gives the nearest point of the target, and is idempotent',
 "project_point on a Line, Plane, Circle or Sphere returns the point of it nearest to the input, up to rounding: the result lies on the object, the residual is orthogonal to it (along the normal, or radially towards the same side of the centre), and projecting again changes nothing; a circle's or sphere's centre raises ValueError. project_points equals project_point row by row, project_vector of Vector, Line and Plane (and scalar_projection) are the orthogonal components, whatever the base point, length or sign of the target's vector (ValueError onto the zero vector). Plane.project_line is the line through the projections of the line's points (parallel lines keep their direction), and raises ValueError when the line is perpendicular to the plane.",
 ['inputs'],'all objects and points in the dimensions each method supports, any direction length and offset',
 'Tests project a few points onto axis-aligned objects; optimality and agreement of batch and scalar forms quantify over all positions.',
 [O+'line.py',O+'plane.py',O+'_base_sphere.py',O+'vector.py'],
 [('project_point, project_points, project_vector, project_line, scalar_projection','Line, Plane, _BaseSphere, Vector')],['projection results'])
p('C08','Distances equal the true Euclidean distances in scalar and batch forms',
 "distance_point of Point, Line, Plane, Circle and Sphere is the Euclidean distance from the point to the set (for circle and sphere: to the curve or surface), never negative, symmetric between points, and zero (up to rounding) exactly on the set; distance_points equals it row by row. Plane.distance_point_signed and distance_points_signed have this magnitude and are positive on the side the normal points to. Line.distance_line is the smallest distance between points of the two lines, symmetric, for parallel, intersecting and skew lines; sum_squares is the sum of squared distances; and contains_point is true exactly when the distance is within the given abs_tol.",
 ['inputs'],'all objects, points and point sets in every supported dimension',
 'Tests check listed pairs of axis-aligned objects with tiny batches.',
 [O+'point.py',O+'line.py',O+'plane.py',O+'_base_sphere.py',O+'_base_line_plane.py','src/skspatial/_functions.py'],
 [('distance_*, contains_point, sum_squares','Point, Line, Plane, _BaseSphere')],['distance results'])
p('C09','side_point has the sign of the exact orientation',
 "Line.side_point (2D) returns 1 for points strictly to the right of the line's direction, -1 to the left and 0 for points on the line, and Plane.side_point returns 1 on the side the normal points to, -1 behind and 0 on the plane; both are exact for integer coordinates where no rounding is needed and right for all points clear of the boundary by more than rounding. Reversing the direction or normal flips the sign, and moving the base point within the object or scaling the vector by a positive factor does not change it. A line or point that is not 2D raises ValueError in Line.side_point.",
 ['inputs'],'all lines, planes and points, including points exactly on the object',
 'Tests classify a few points against axis-aligned lines and planes.',
 [O+'line.py',O+'plane.py',O+'vector.py'],[('side_point','Line, Plane'),('side_vector','Vector')],['side_point'])
p('C10','Line and plane intersections lie on both objects, or are refused',
 "Line.intersect_line (up to 3D), Plane.intersect_line and Plane.intersect_plane return the common point or line: it lies on both inputs up to rounding, does not depend on argument order, and the line of two planes has the direction of the cross product of the normals. Parallel inputs, skew 3D lines (unless check_coplanar=False, which gives the point of the first line nearest to the second), lines of different or over three dimensions raise ValueError. Line.is_coplanar is true exactly when one plane holds both lines, and raises TypeError for anything but a line.",
 ['inputs'],'all pairs of lines and planes; parallel, coincident, crossing and skew; exact integer and float coordinates; any direction lengths',
 'Tests intersect a few pairs; the division between crossing, parallel and skew under scaling and offsets needs generated pairs with exact arithmetic.',
 [O+'line.py',O+'plane.py'],[('intersect_line, intersect_plane, is_coplanar','Line, Plane')],['intersection results, ValueError'])
p('C11','Line segments contain and intersect exactly where they should',
 "LineSegment.contains_point is true for the endpoints and for points between them (exact for axis-aligned or otherwise exactly representable points) and false for every point clearly off the segment, beyond an end included, in any dimension. intersect_line_segment returns the common point of two non-parallel segments that cross, touch or share an endpoint, in 2D or 3D, in either argument order and endpoint order, and raises ValueError when they do not meet: crossing points beyond an end of either, parallel or skew segments.",
 ['inputs'],'all segment pairs and points, with crossings inside, at the ends and beyond',
 'Tests use a few unit segments that cross in the middle; endpoint contact, far offsets, 3D and near misses are not reached.',
 [O+'line_segment.py'],[('contains_point, intersect_line_segment','LineSegment')],['contains_point, intersect_line_segment'])
p('C12','Circle and sphere intersections lie on both, are complete and ordered',
 "Circle.intersect_line and Sphere.intersect_line return the two points where the line meets the curve or surface (equal when tangent), each on both, their midpoint being the foot of the centre on the line; Sphere orders them along the line's direction. Circle.intersect_circle returns both common points of two circles. They raise ValueError exactly when there is no common point or the circles are concentric, and the set of points does not depend on the direction's length or sign, the line's base point or which circle is first.",
 ['inputs'],'all circles, spheres and lines: secant, tangent (where exactly representable) and missing; nested, touching and separate circles',
 'Tests list a few centred unit circles; position, radius ratio, direction length and quadrant combinations are unbounded.',
 [O+'circle.py',O+'sphere.py'],[('intersect_line','Circle, Sphere'),('intersect_circle','Circle')],['returned points, ValueError'])
p('C13','Cylinder measures, containment and line intersections match its geometry',
 "length, lateral_surface_area, surface_area and volume equal the closed formulas of the radius and the axis vector, as do the circumference, area, surface_area and volume of Circle and Sphere. is_point_within is true exactly for points of the closed solid cylinder between its caps (clear of the boundary by more than rounding). intersect_line returns both points where the line meets the infinite lateral surface or, with infinite=False, the boundary of the finite solid including its caps, and raises ValueError when there are none, for lines not 3D, or for lines parallel to the axis of the infinite cylinder; n_digits only rounds the quadratic's coefficients.",
 ['inputs'],'all cylinders (any axis, radius, length) and points and lines in general and axis-aligned position',
 'Tests use a handful of z-aligned cylinders; cap/side combinations under arbitrary axes are not reached.',
 [O+'cylinder.py',O+'circle.py',O+'sphere.py','src/skspatial/_functions.py'],[('measures, is_point_within, intersect_line','Cylinder'),('measures','Circle, Sphere')],['results'])
p('C14','Points: rank, collinearity, coplanarity, centroid and normalisation',
 "affine_rank is the dimension of the smallest affine space holding the points, so are_concurrent, are_collinear and are_coplanar are exactly rank 0, at most 1 and at most 2, independent of order, duplicates, translation and scale, for integer points and for float points clearly of that rank. centroid is the mean of all rows, duplicates included; mean_center subtracts it (and returns it when asked); normalize_distance divides all points by the largest distance from the origin; unique returns each distinct row once, sorted. The tol keyword is an absolute singular-value threshold, and a larger one never raises the rank.",
 ['inputs'],'all point sets of any size and dimension with known exact rank',
 'Tests check sets of three to five small points.',
 [O+'points.py'],[('affine_rank, are_*, centroid, mean_center, normalize_distance, unique','Points')],['results'])
p('C15','Line and plane of best fit minimise the squared distances',
 "Line.best_fit and Plane.best_fit pass through the centroid and minimise the sum of squared orthogonal distances over all lines (any dimension) or all 3D planes: no other candidate does better, beyond rounding, and exactly collinear or coplanar points are fitted exactly. With return_error=True the error equals that minimum, which is also sum_squares, and the fit is the same as without it. The sum does not depend on the order of the points; concurrent points (line), collinear or non-3D points (plane) raise ValueError, subject to tol.",
 ['inputs'],'all point sets from the minimum size to hundreds of points',
 'Tests fit a few point sets with known answers; optimality is a statement over all candidates.',
 [O+'line.py',O+'plane.py'],[('SVD of the centered points','Line.best_fit, Plane.best_fit')],['best_fit, sum_squares'])
p('C16','Circles, spheres and cylinders are recovered from points on them',
 "Circle.from_points gives the circle through the three points, and Circle.best_fit and Sphere.best_fit give the algebraic least-squares circle or sphere, so well-spread points on a circle or sphere give it back, and permuting, moving, rotating or scaling the points does the same to the fit. Cylinder.best_fit on points spread around and along a cylinder surface (longer than its diameter) recovers its axis line and radius, and the fitted cylinder runs along the axis exactly from the first to the last point. Too few points, wrong dimensions, and collinear or coplanar points raise ValueError.",
 ['inputs'],'all circles, spheres and cylinders and all well-spread samples of them, exact or noisy',
 'Tests fit a few fixed samples.',
 [O+'circle.py',O+'sphere.py',O+'cylinder.py'],[('from_points, best_fit','Circle'),('best_fit','Sphere, Cylinder')],['fitted objects'])
p('C17','Triangle measures and centres satisfy Euclidean geometry',
 "For every non-degenerate triangle (2D or 3D) the side lengths, perimeter, area, interior angles, normal, centroid, altitudes and orthocenter are the true ones: angles lie in [0, pi], sum to pi and obey the law of cosines, each altitude runs from its vertex to the foot on the opposite side's line, and the orthocenter lies on all three altitudes. point, line, length, angle, altitude and multiple use one consistent labelling (side a is opposite vertex A, and runs from B to C) and raise ValueError for other labels. classify and is_right follow math.isclose on the side lengths, and relabelling the vertices permutes all results.",
 ['inputs'],'all triangles in 2D and 3D, including right, isosceles, obtuse and thin ones',
 'Tests tabulate a few right and isosceles triangles.',
 [O+'triangle.py'],[('all measures','Triangle')],['Triangle methods'])
p('C18','Area and volume functions satisfy the laws of measure',
 "area_triangle (2D or 3D) is half the parallelogram area, volume_tetrahedron one sixth of the absolute determinant (zero for 2D or coplanar points), and area_signed the shoelace area of the polygon: positive for counter-clockwise and negative for clockwise order. They do not depend on vertex order (area_signed: on the starting vertex; reversal negates it), add up over subdivision and scale with the square or cube of length; the area matches Triangle.area. area_signed raises ValueError for fewer than three points or points not 2D.",
 ['inputs'],'all point tuples and polygons with any number of vertices, convex or not',
 'Tests check a few constant shapes.',
 ['src/skspatial/measurement.py'],[('area_triangle, volume_tetrahedron, area_signed','skspatial.measurement')],['results'])
p('C19','Meshes and surface points lie on the surface and cover it',
 "to_mesh of Plane, Sphere and Cylinder returns three arrays of equal shape, set by the requested numbers or limits, whose points all lie on the surface up to rounding, for every orientation of the object. The meshes cover it: plane corners lie at the requested limits around the plane's point, sphere rows run from pole to pole around full turns, cylinder columns run from the base circle to the top circle around a full turn. to_points returns exactly the mesh's points as an (N, 3) Points object and forwards the arguments.",
 ['inputs'],'all planes (including vertical), spheres, cylinders and mesh sizes and limits',
 'Tests compare a few meshes with stored arrays.',
 [O+'plane.py',O+'sphere.py',O+'cylinder.py',O+'_mixins.py'],[('to_mesh','Plane, Sphere, Cylinder'),('to_points','_ToPointsMixin')],['meshes'])
p('C20','Coordinate transformation is the exact change of basis',
 "transform_coordinates gives, for each point and basis vector, the dot product of the point's offset from the origin point with that vector, in the input order, for any number of points, dimension and number of basis vectors. With an orthonormal basis, distances are kept and the inverse transformation restores the points. Line.transform_points gives signed coordinates along the unit direction from the line's point, so that the line's point plus coordinate times unit direction is the point's projection.",
 ['inputs'],'all point sets, origins and bases of any shape that agrees',
 'Tests transform a few points with simple bases.',
 ['src/skspatial/transformation.py',O+'line.py'],[('transform_coordinates','skspatial.transformation'),('transform_points','Line')],['results'])
p('C21','Every computation commutes with motions and uniform scaling',
 "Moving all inputs of any geometric query by a translation, axis permutation, reflection or rotation (exact where the motion is exact), or scaling all inputs by a common positive factor, moves and scales its points, multiplies its lengths, areas and volumes by the matching power, and leaves its angles, ratios and yes/no answers unchanged, up to rounding (signs of orientation flip under reflection). A query that raises ValueError raises it after the motion too.",
 ['inputs'],'all public geometric queries, all inputs away from decision boundaries, all motions and scale factors',
 'This is a relation between two runs; unit tests only look at one run near the origin.',
 ['src/skspatial/objects','src/skspatial/measurement.py'],[('all geometric queries','src/skspatial')],['pairs of results'])
p('C22','Plots draw exactly the object, and plotters choose the right method',
 "plot_2d and plot_3d add to the axes exactly one artist (for a triangle, one per part) with exactly the object's geometry: points at their coordinates, lines and segments between the requested parameters or their endpoints, vectors from the given point with the given scale, circles with their centre and radius, and surfaces with the vertices of the object's mesh; other keywords reach Matplotlib. plotter(**kwargs) returns a function that draws the same on its axes by the 2D or 3D method according to dimension, and raises ValueError for other dimensions or for objects that cannot be drawn in that dimension. skspatial.plotting.plot_2d and plot_3d call every plotter once, in order, on one new axes of the right kind.",
 ['inputs'],'all objects that can be drawn and all their plotting options',
 'Tests only check that plotting does not raise or compare few calls; the drawn coordinates are not inspected.',
 ['src/skspatial/plotting.py',O+'_base_spatial.py'],[('plotter','_PlotterMixin'),('plot_2d, plot_3d','all objects, skspatial.plotting')],['artists on the axes'])
p('C23','Tolerance keywords reach every comparison and act monotonically',
 "The tolerance keywords (abs_tol, rel_tol; tol for rank based checks) given to is_zero, is_parallel, is_perpendicular, is_close, contains_point, is_coplanar, from_vectors, from_points, intersect_line, intersect_plane, intersect_line_segment, project_line, orthocenter, different_direction, best_fit, classify, is_right and the Points checks decide exactly as math.isclose (or, for ranks, a threshold on the singular values of the centred distinct points) on the quantity compared, for values clearly on either side. Enlarging a tolerance never turns an accepted comparison into a rejected one, and a tolerance given to one call never affects another.",
 ['inputs','configurations'],'all methods with tolerance keywords, all near-threshold inputs and tolerance values',
 'Tests pass a tolerance in a few calls only; a dropped or swapped keyword changes nothing for exact inputs.',
 ['src/skspatial/objects','src/skspatial/_functions.py'],[('math.isclose and numpy matrix_rank keywords','all methods with **kwargs or tol')],['decisions on both sides of the tolerance'])
p('C24','Every query answers with a finite value of its documented type, or raises ValueError',
 "On valid objects with finite coordinates (well inside the floating range), every query either returns finite values of its documented types or raises ValueError with a message: never NaN or infinity, another type or another exception. Distances, lengths, areas and volumes are real numbers that are not negative, yes/no queries give booleans, sides -1, 0 or 1, points, vectors and objects have the class and dimension of the input, and batch results one entry for every input row. Queries without a documented refusal always answer. Arguments of different dimensions (both at least 2) are refused with ValueError by every query of two objects, apart from is_equal, is_parallel and is_perpendicular with zero vectors, and the operations that pad with zeros (cross, Plane.from_vectors). is_close and is_coplanar of a line or plane raise TypeError for an object of another type.",
 ['inputs'],'all public queries, all valid objects of any scale and dimension, degenerate and special positions included',
 'Tests look at values for chosen inputs; that no input gives NaN, a wrong type, another exception or an answer for mixed dimensions is a statement about all of them.',
 ['src/skspatial/objects','src/skspatial/measurement.py','src/skspatial/transformation.py'],[('return annotations and Raises sections of all queries','src/skspatial')],['type, shape and finiteness of every result; class of every exception'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
