prop('C03', 'Indexed access returns exactly the requested element',
     'Reading an element of a line, ring, polygon, multi-geometry or of their first/last positions returns exactly the element stored at that position, with all three coordinates, and the size reported is the number of elements stored. For every checked accessor an index at or beyond the size raises an out-of-range error.',
     ['inputs'], 'every container content (including empty) and every index',
     'Tests read a few small containers at a few indices; the claim is about every content and every index, including the empty container and the last element.',
     [T + 'Geometries.h', T + 'Geometries_impl.hpp', S + 'LineString.cpp', S + 'LinearRing.cpp', S + 'MultiPoint.cpp', S + 'MultiLineString.cpp', S + 'Cell.cpp', S + 'Cells.cpp'],
     [('checked element access', 'getGeometry of each container type'), ('positional access', 'at, operator[], back, startPoint, endPoint, getX/getY/getZ')])

prop('C18', 'Point arithmetic is component-wise and exact',
     'Addition, subtraction, scaling, division, dot product, determinant, rotation and polar displacement of points follow the coordinate-wise definitions (rotation and polar displacement in the plane), and the operators lifted to lists and geometries apply the same operation to every element in order. Setting one coordinate leaves the others unchanged.',
     ['inputs'], 'every pair of points, every scalar, every list length',
     'Tests evaluate a handful of small integers, mostly with zero height and symmetric operands.',
     [T + 'Point.h', S + 'Point.cpp'],
     [('operators', 'operator+, -, *, / of points, lists and geometries'), ('planar rotation', 'rotateFromPoint, getPointFromAngle')])

prop('C01', 'Copies and clones keep the value of every geometry and attribute',
     'clone() of every geometry type, swath, field and cell set returns an object with the same geometry (all coordinates of all members, exactly) and the same attributes (type, width, identifiers, path, direction flags, coordinate systems, reference point) as the original. Constructing a geometry from a library object copies its value.',
     ['inputs'], 'every geometry content and every attribute value',
     'Tests clone small integer-coordinate geometries and compare with a tolerance.',
     [T + 'Geometry_impl.hpp', T + 'Geometries_impl.hpp', S + 'Swath.cpp', S + 'Field.cpp'],
     [('clone', 'Geometry::clone, Geometries::clone, Swath::clone, Field::clone, Cell(s)::clone')])

prop('C02', 'Clones, containers and results share nothing with what they were made from',
     'After clone() of a geometry, swath, list of swaths, strip, field or route, no change of the original changes the clone and no change of the clone changes the original, at any depth (rings of cells, swaths of lists of lists, connections of routes). A geometry, field or list of swaths built from points, lines, rings or cells holds copies: later changes of those leave it as it was, and so do changes of an element it returned by value. Points, states and paths are values: copies of them never change with one another. Operations that return a new object (sums, rotations, absolute positions, sorted swaths, everything transformed to other coordinates) leave their operands as they were, also when the result is changed later.',
     ['inputs', 'histories'], 'every value, every member of it and every way of changing it afterwards',
     'Sharing shows only when one of two objects is changed later; tests compare right after the copy is made.',
     [T + 'Geometry_impl.hpp', T + 'Geometries_impl.hpp', S + 'Swath.cpp', S + 'Swaths.cpp', S + 'SwathsByCells.cpp', S + 'Strip.cpp', S + 'Field.cpp', S + 'Route.cpp', S + 'Cell.cpp', S + 'Cells.cpp'],
     [('clone', 'Geometry::clone, Swath::clone, Swaths::clone, SwathsByCells::clone, Strip::clone, Field::clone, Route::clone'), ('containers', 'addPoint, addRing, addGeometry, Swaths::append, Field::Field'), ('results', 'operator+, operator-, rotateFromPoint, getCellsAbsPosition, genSortedSwaths')],
     state=[('data_', 'shared pointer to the geometry; which objects refer to the same one after copies and changes')])

prop('C04', 'Adding, inserting and replacing elements keeps all other elements',
     'Building a container from a list or a member, appending an element, and replacing element i leave every other element in place and in order, store the given element exactly, grow the size by the number of elements added (a line string, cell or ring set beyond the end is preceded by empty ones), and complete linear rings as closed rings.',
     ['inputs', 'histories'], 'every container content, every index and every element',
     'Tests append or replace two or three elements of short containers.',
     [T + 'Geometries_impl.hpp', S + 'LineString.cpp', S + 'LinearRing.cpp', S + 'MultiPoint.cpp', S + 'MultiLineString.cpp', S + 'Cell.cpp', S + 'Cells.cpp'],
     [('append', 'addPoint, addGeometry, addRing'), ('replace', 'setGeometry of each container'), ('list constructors', 'LineString, LinearRing, MultiPoint, MultiLineString, Cell, Cells')])

prop('C05', 'In-place scaling and iteration touch every element exactly once',
     'Multiplying a geometry in place by a scalar multiplies x, y and z of every point of every member exactly once. Iterating over a container visits its elements in order, once each, and a change made through an iterator is written back to that element only.',
     ['inputs'], 'every container content, every scalar, every iteration position',
     'Tests iterate over two or three elements and scale by integers.',
     [T + 'Geometries.h', T + 'Geometries_impl.hpp', S + 'LineString.cpp', S + 'LinearRing.cpp', S + 'MultiPoint.cpp', S + 'MultiLineString.cpp', S + 'Cell.cpp', S + 'Cells.cpp'],
     [('scaling', 'operator*= of each type'), ('iterators', 'Geometries::Iterator, Geometries::ConstIterator')])

prop('C06', 'Measures, predicates and set operations answer for the right operands',
     'Length, area, extent, distance and the topological predicates report the value of the geometries they are called on. Two geometries are equal exactly when the geometry library calls them equal. Union, intersection, difference, buffer, hull, simplification and similar operations return the result of exactly that operation on their two operands, in the type promised, repeated operations over a list take every member into account, and the cell a point is in is the first one that holds or touches it.',
     ['inputs'], 'every pair of geometries of every type combination offered',
     'Tests evaluate some operations on axis-aligned squares; each overload for each type combination is a separate forwarding path.',
     [T + 'Geometry_impl.hpp', T + 'Geometries_impl.hpp', S + 'LineString.cpp', S + 'MultiLineString.cpp', S + 'MultiPoint.cpp', S + 'Cell.cpp', S + 'Cells.cpp'],
     [('measures', 'length, area, getDimMinX..., distance'), ('predicates', 'operator==, operator!=, disjoint, crosses, touches, within, intersects, isPointIn, isPointInBorder'), ('set operations', 'intersection, difference, unionOp, unionCascaded, buffer, convexHull, simplify')])

prop('C08', 'Angles of points, lines, segments and swaths follow their definition',
     'The angle of a point, of a segment, of the start, end or any position of a line, ring or swath is the direction of the vector between the right two points, reduced to the documented range. Differences of angles are the smaller of the two turns between them, averages lie half-way along that turn, and every result lies in the range its name promises, for all coordinates including repeated points and every angle however large.',
     ['inputs'], 'all coordinates, all angles (negative, beyond a turn), all lengths and positions',
     'Tests check multiples of 45 degrees on a few two-point lines.',
     [T + 'Geometry_impl.hpp', T + 'Point.h', S + 'Point.cpp', S + 'LineString.cpp', S + 'MultiPoint.cpp', S + 'Swath.cpp'],
     [('reduction', 'mod_2pi, getAngleDiffAbs, getAngleAvg, getAngContinuity'), ('angles of geometries', 'getAngleFromPoint, startAngle, endAngle, getInAngle, getOutAngle, getAngleAt')])

prop('C09', 'Closest points, derived lines and convexity follow from coordinates',
     'The closest point of a point, segment, line or cell to a given point is a point of it at the smallest distance; segments of lines and rings are the pairs of consecutive points, in order; a cell counts as convex exactly when its border turns to one side only; and point-in-area queries look at every ring and member.',
     ['inputs'], 'every line, ring and cell, of any number of points, and every query point',
     'Tests query a few points against squares.',
     [S + 'Point.cpp', S + 'LineString.cpp', S + 'LinearRing.cpp', S + 'Cell.cpp', S + 'Cells.cpp', S + 'MultiLineString.cpp'],
     [('closest point', 'closestPointOnBorderTo, closestPointInSegment, closestPointTo'), ('derived lines', 'getLineSegments, getLongestEdge, createSemiLongLine, createStraightLongLine'), ('convexity', 'Cell::isConvex')])

prop('C10', 'A swath keeps direction, width and path consistent',
     'A swath reports the id, width, type and path it was given. Reversing it swaps its ends and directions and keeps its area; setting its direction makes it run in the direction asked for; the covered area is the path widened by half of the width on each side; comparisons order swaths by position in the documented way and the angle and ends reported belong to the current direction.',
     ['inputs', 'histories'], 'every path, width, identifier and direction flag',
     'Tests use a few horizontal two-point swaths.',
     [T + 'Swath.h', S + 'Swath.cpp'],
     [('direction', 'reverse, hasSameDir, targetSameDirAs, targetOppositeDirAs, creation_dir_'), ('coverage', 'areaCovered, computeSwathsInField'), ('ordering', 'operator<, ==')])

prop('C11', 'Swath orders are the documented permutation for every number of swaths',
     'Boustrophedon, snake, spiral and custom orders visit every swath of the list exactly once, in the order the pattern documents, for any number of swaths (including none and one), every variant of the starting corner and every spiral size; neighbours are covered in opposite directions; and an order given by the user is accepted only if it is a permutation of the swaths.',
     ['inputs'], 'every list of swaths, every variant, every spiral size and every custom order',
     'Tests enumerate small numbers of swaths, mostly even, and one or two spiral sizes.',
     ['src/fields2cover/route_planning/boustrophedon_order.cpp', 'src/fields2cover/route_planning/snake_order.cpp', 'src/fields2cover/route_planning/spiral_order.cpp', 'src/fields2cover/route_planning/custom_order.cpp', 'src/fields2cover/route_planning/single_cell_swaths_order_base.cpp'],
     [('orders', 'sortSwaths of each order'), ('start corner', 'SingleCellSwathsOrderBase::changeStartPoint'), ('validation', 'CustomOrder::check')])

prop('C19', 'A robot reports its parameters consistently, in defined ranges',
     'After construction and every setter, the getters of a robot report what was given: curvatures are magnitudes, the turning radius is their inverse, a smaller working width than the robot width or an unset turn velocity falls back as documented, and no setter disturbs another parameter.',
     ['inputs', 'histories'], 'every parameter value including zero and negative ones',
     'Tests set a few positive values.',
     [T + 'Robot.h', S + 'Robot.cpp'],
     [('setters and getters', 'Robot')])

prop('C32', 'Lists of swaths and routes keep every swath when extended or reordered',
     'Appending, sorting, reversing and re-directing lists of swaths and of swaths by cell keep every swath exactly once: appended swaths get the next identifiers, reversing reverses the order, sorting orders by the swath order, alternation reverses exactly every second swath, and size, indexing and flattening agree with each other.',
     ['inputs', 'histories'], 'every list of swaths of any length',
     'Tests use lists of two or three swaths.',
     [T + 'Swaths.h', S + 'Swaths.cpp', T + 'SwathsByCells.h', S + 'SwathsByCells.cpp'],
     [('building', 'Swaths::append, push_back, emplace_back, appendSwathsFromMultiLineString'), ('reordering', 'Swaths::sort, reverse, reverseDirOddSwaths'), ('by cells', 'SwathsByCells::flatten, sizeTotal, getSwath')])

prop('C13', 'Graphs report exactly their edges, and shortest costs and paths',
     'A graph reports the edges given to it and no others, each with the cost given last, in the direction given; counts of nodes and edges and lists of neighbours agree with them. Shortest costs are the smallest sum of edge costs, 0 from a node to itself and the given infinity when there is no way; the shortest path starts and ends at the nodes asked for, follows edges and has that cost; all-pairs answers agree with single answers. In a graph of points, points and indices name each other one to one, and costs that are not given are the distance in thousandths or the shortest cost of the other graph.',
     ['inputs', 'histories'], 'every list of directed edges and costs between up to four nodes, with repetitions, cycles, loops and unreachable nodes, and every query',
     'Tests build two or three graphs by hand and look at a few of their costs.',
     [T + 'Graph.h', S + 'Graph.cpp', T + 'Graph2D.h', S + 'Graph2D.cpp'],
     [('edges', 'addDirectedEdge, addEdge, removeDirectedEdge, removeEdge, getCostFromEdge, getEdgesFrom, numNodes, numEdges'), ('shortest paths', 'Graph::initializeMatrices, shortestPath, shortestPathCost, getCosts, getPaths, reconstructPath'), ('points', 'Graph2D::nodeToIndex, indexToNode, addEdge, addDirectedEdge')])

prop('C14', 'A changed graph never answers from stale results',
     'Whatever was asked of a graph before, with whatever infinity, its answers after edges were added or removed are those of a graph freshly built with the edges it has now: no cached distance, successor or path survives a change, and no answer depends on earlier queries.',
     ['histories'], 'every graph, every change of it, every query before and after it',
     'Tests change graphs before the first query, or ask one kind of question.',
     [T + 'Graph.h', S + 'Graph.cpp'],
     [('invalidation', 'addDirectedEdge, removeDirectedEdge'), ('lazy results', 'shortestPath, shortestPathCost, getCosts, getPaths')],
     state=[('next_, distance_, shortest_paths_, inf_', 'results of the last computation, valid only for the current edges and infinity')])

prop('C20', 'A field reports its attributes, and what its coordinate system names',
     'A field reports the identifier, coordinate systems, reference point and cells that were set, and setting one of them leaves the others unchanged; a field made from cells keeps them relative to the first point of its border, and its absolute geometry is the original one. Which system a name denotes (UTM or EPSG, the zone with one or two digits, the hemisphere, the datum, the EPSG code) is read from the name without regard to case, missing parts have the documented answer, and a coordinate system set by code or by zone and datum is read back as set.',
     ['inputs', 'histories'], 'every name of a coordinate system, every cell, every sequence of one setter and the getters',
     'Tests use a few names, all with zones of two digits.',
     [T + 'Field.h', S + 'Field.cpp'],
     [('attributes', 'Field constructors and setters'), ('names of coordinate systems', 'isCoordSystemUTM, isCoordSystemEPSG, getUTMZone, getUTMHemisphere, getUTMDatum, getUTMCoordSystem, getEPSGCoordSystem'), ('setting', 'setEPSGCoordSystem, setUTMCoordSystem')])

prop('C21', 'Transforming coordinates keeps everything but the coordinates',
     'Transforming a point, path, swath, route, cell set, field or line from one coordinate system to another transforms every point, adds the reference point before and subtracts it after as documented, and keeps identifiers, widths, types, directions, velocities and orders; the inputs are left as they were. Fields record the system they came from and the one they are now in, and the transformation to UTM chooses the zone and hemisphere that contain the field.',
     ['inputs'], 'every geometry, every pair of systems (the projection itself is an operation of the geometry library), every longitude and latitude',
     'Tests transform one or two fields and compare a coordinate.',
     ['src/fields2cover/utils/transformation.cpp', 'include/fields2cover/utils/transformation.h'],
     [('transformation', 'Transform::transform of every type, transformPath, transformSwath, transformRoute, transformToUTM, transformToPrevCRS'), ('systems', 'Transform::createSptRef, generateCoordTransf, getRefPointInGPS')])

O = 'src/fields2cover/objectives/'
prop('C12', 'Routes keep every swath and connection, in the order they were added',
     'A route holds lists of swaths, each preceded by a connection. Adding a swath, a list of swaths, a connection (of a point, several, or none) or a connected list extends the route at its end by exactly what was given and changes nothing before it; a swath added with a graph is connected by the shortest path of the graph from the end of the route. What was set at a position is read there. The line of a route runs through its connections and swaths in turn, its length is the length of that line, and its start and end are the first and last points of it.',
     ['inputs', 'histories'], 'every route with any number of swaths and connections, every operation on it',
     'Tests build one or two routes and compare sizes and a few points.',
     [T + 'Route.h', S + 'Route.cpp'],
     [('building', 'addSwath, addSwaths, addConnection, addConnectedSwaths, setSwaths, setConnection'), ('reading', 'asLineString, length, startPoint, endPoint, clone')])

prop('C22', 'Objectives of swaths, headlands and paths measure what they are named after',
     'The number of swaths counts every swath of every cell, the swath length sums the lengths of all of them, field coverage is the part of the field the swaths cover, overlap is the area covered twice summed over every pair of swaths and relative to the field, the estimate of the number of swaths is half the extent of the border across the swath direction over the width, the remaining area is the part of the field outside of the headlands, and the path length sums the lengths of all states. Costs of lists are sums over their members, a cost "with minimising sign" is negated exactly for objectives to be maximised, and no objective reads outside of the lists it gets.',
     ['inputs'], 'every cell, swath list (empty ones too), angle and width',
     'Tests compute each objective on one or two small fields.',
     [O + 'sg_obj/sg_objective.cpp', O + 'sg_obj/field_coverage.cpp', O + 'sg_obj/n_swath.cpp', O + 'sg_obj/n_swath_modified.cpp', O + 'sg_obj/overlaps.cpp', O + 'sg_obj/swath_length.cpp', O + 'hg_obj/hg_objective.cpp', 'include/fields2cover/objectives/base_objective.h'],
     [('costs', 'computeCost of every objective'), ('sign', 'BaseObjective::computeCostWithMinimizingSign, isMinimizing')])

prop('C23', 'The cost of a route is the cost of everything that is driven, in order',
     'The cost of moving between points, swaths and connections is the distance (or the length of the turn) from where the first one ends, with the angle it ends in, to where the second one starts, with the angle it starts in. The cost of a list of points, of swaths or of a whole route is the sum over its swaths, its connections and every move between them; empty lists cost nothing.',
     ['inputs'], 'every pair of poses, every list of swaths and points, every route; for straight moves and for turns of the planner',
     'Tests use straight swaths and compare a few sums.',
     [O + 'rp_obj/rp_objective.cpp', O + 'rp_obj/direct_dist_path_obj.cpp', 'include/fields2cover/objectives/rp_obj/complete_turn_path_obj.h'],
     [('moves', 'RPObjective::computeCost of every pair of kinds'), ('routes', 'RPObjective::computeCost(Route)')])

prop('C24', 'Headlands are the field shrunk by the widths asked for',
     'What remains of a field inside its headland is the field shrunk by the headland width, or by the width of one pass times the number of passes. The passes around the field lie half a width inside the border, then one width further each: from the border inwards, or, when asked, from the innermost one outwards. Exactly as many as asked for are returned (none for none), and the field is not changed.',
     ['inputs'], 'every field, width and number of passes, in both directions (growing and shrinking a polygon is an operation of the geometry library)',
     'Tests shrink one or two fields and compare an area.',
     ['src/fields2cover/headland_generator/constant_headland.cpp', 'include/fields2cover/headland_generator/constant_headland.h'],
     [('headland', 'ConstHL::generateHeadlands, generateHeadlandArea'), ('passes', 'ConstHL::generateHeadlandSwaths')])

prop('C25', 'Swaths are parallel, one width apart, at the angle asked for or the best one',
     'The swaths of a cell for an angle are the parts inside the cell of parallel lines with that angle, one width apart, the first half a width from the border, until the cell is covered (a last one that hangs over the border only when overlap is allowed), numbered in order, with the width asked for. Cells are treated each by itself, in order. The best swaths are those of the best angle, and the best angle is the first of least cost (greatest, when the objective is maximised) of the steps of a whole turn; the cost of an angle is that of its swaths, or the estimate where the objective has one.',
     ['inputs'], 'every cell, angle, positive width, step and objective (cutting a line by a polygon is an operation of the geometry library)',
     'Tests count the swaths of a rectangle and look at the best angle of a few fields.',
     ['src/fields2cover/swath_generator/swath_generator_base.cpp', 'src/fields2cover/swath_generator/brute_force.cpp'],
     [('swaths of an angle', 'SwathGeneratorBase::generateSwaths'), ('search', 'BruteForce::computeBestAngle, SwathGeneratorBase::computeCostOfAngle, generateBestSwaths'), ('options', 'setStepAngle, getStepAngle, setAllowOverlap, getAllowOverlap')])

prop('C33', 'Decompositions split cells along lines from their corners at the angle set',
     'Trapezoidal decomposition draws, from every corner of every ring, the two opposite lines at the angle set until the border. Boustrophedon decomposition draws them only from corners where both lines go inside the cell, starting after the borders the line runs along. The cells are then split by exactly these lines; the step that merges cells leaves them as they are, and the angle used is the one last set.',
     ['inputs'], 'every set of cells with any number of rings and corners, every angle (cutting by a line is an operation of the geometry library)',
     'Tests decompose two or three fields and count the cells.',
     ['src/fields2cover/decomposition/decomposition_base.cpp', 'src/fields2cover/decomposition/trapezoidal_decomp.cpp', 'src/fields2cover/decomposition/boustrophedon_decomp.cpp'],
     [('lines', 'TrapezoidalDecomp::genSplitLines, BoustrophedonDecomp::genSplitLines, isLinePartOfLinearRing'), ('splitting', 'DecompositionBase::decompose, split, merge'), ('angle', 'setSplitAngle, getSplitAngle')])

P = 'src/fields2cover/path_planning/'

prop('C15', 'Turns are planned in a normal form, placed where they belong, never a stale one',
     'A turn between two poses is the turn planned for their normal form (the distance, and both directions seen from the line between them, mirrored when needed), rotated, mirrored and moved back to where the poses are, with ends that are near the poses put on them. It is the same with the cache and without it: after any earlier turn, a turn for another robot parameter, distance, direction or discretization is planned anew. Every planner hands the right limits and poses to the library of curves, each state is as long as the way to the next, and the check of a turn accepts exactly those that stay above their base line and end at the right place in the right direction.',
     ['inputs', 'histories'], 'every pair of poses, robot, discretization and earlier turn (the curves themselves are operations of the library of curves)',
     'Tests plan a few turns, mostly for one robot, and the cache is keyed on rounded values.',
     [P + 'turning_base.cpp', P + 'dubins_curves.cpp', P + 'dubins_curves_cc.cpp', P + 'reeds_shepp_curves.cpp', P + 'reeds_shepp_curves_hc.cpp', 'include/fields2cover/path_planning/steer_to_path.hpp'],
     [('normal form', 'TurningBase::transformToNormalTurn, createTurn, correctPath'), ('cache', 'TurningBase::createTurnIfNotCached, setDiscretization, setUsingCache'), ('planners', 'createSimpleTurn of each planner, steerStatesToPath, loop_detected'), ('check', 'TurningBase::isTurnValid')])

prop('C16', 'Paths drive every swath and connection of the route, in order',
     'The path along a list of swaths drives every swath at cruise speed, in order, with the turn from the end of each one, in its direction, to the start of the next one, in its direction. The path along a route drives, for each list of swaths, first the connection to it and then its swaths, and the last connection at the end. A connection is driven by turns from each pose of its simplified form to the next, which starts and ends at the poses asked for and keeps corners only where they leave room to turn.',
     ['inputs'], 'every route, robot and planner of turns',
     'Tests plan paths for a handful of routes and look at the length of the result.',
     [P + 'path_planning.cpp', 'include/fields2cover/path_planning/path_planning.h'],
     [('swaths', 'PathPlanning::planPath(Swaths)'), ('routes', 'PathPlanning::planPath(Route)'), ('connections', 'PathPlanning::planPathForConnection, simplifyConnection')])

prop('C17', 'Paths keep every state through reading, joining, moving and discretising',
     'A path reports exactly the states it was given, in order. Its length, time and extent are those of its states; each state ends its length away, in its direction, forwards or backwards. Moving, mirroring and rotating it treat every state alike; a swath that is appended becomes one state for each of its segments; discretising cuts the states of swaths in equal steps of about the length asked for, and keeps the other ones; the place at a length is found in the state that is driven there.',
     ['inputs', 'histories'], 'every list of states and swath, every step and length',
     'Tests build paths of two or three states with easy angles.',
     [S + 'Path.cpp', S + 'PathState.cpp', T + 'Path.h', T + 'PathState.h'],
     [('states', 'getState, setState, addState, operator[], operator+='), ('measures', 'length, getTaskTime, getDimMinX..., atStart, atEnd, at'), ('moves', 'moveTo, rotateFromPoint, mirrorX, mirrorY'), ('discretising', 'appendSwath, populate, reduce, discretize, discretizeSwath')])

prop('C30', 'Splines pass through their points, smoothly, and keep nothing of earlier ones',
     'A spline passes through each of the points it was given; between them it is the natural cubic spline (the slopes and curvatures of its pieces meet, and it is straight at the ends). The monotonic form also passes through every point, and between points whose values only rise it stays between the values of the two neighbours. Points set later replace the earlier ones completely. Points that are fewer than two, not paired, or not in strictly rising order are refused with an exception, as is a spline that has no points when it is evaluated.',
     ['inputs', 'histories'], 'every list of points (up to five of them, any coordinates) and every place on the spline, every list given before',
     'Tests evaluate two splines on a few values.',
     ['src/fields2cover/utils/spline.cpp', 'include/fields2cover/utils/spline.h'],
     [('coefficients', 'CubicSpline::SetSplineCubic'), ('evaluation', 'CubicSpline::operator()'), ('points', 'CubicSpline(x, y), SetPoints')],
     technique=VN)

prop('C29', 'Imported files give what they hold, incomplete ones are reported',
     'Importing takes every position of a document, of two or three numbers, every ring, cell, swath and strip, once and in the order of the file, with the name, width, number and coordinate system written there; nothing imported earlier into the same list is changed. A GML boundary becomes the polygon of its "x,y x,y" list in the reference system of its srsName. A document that lacks the root, an element on the way to the coordinates, the reference system, the coordinates, or whose coordinates are no polygon, is reported by an exception; no missing part is dereferenced.',
     ['inputs'], 'every document the XML and JSON libraries can hand over, present or missing parts',
     'Tests read eight sample files, all complete but one that does not exist.',
     ['src/fields2cover/utils/parser.cpp', 'include/fields2cover/utils/parser.h'],
     [('JSON', 'importJson, importCellJson, importSwathsJson, importStripsJson, getCellFromJson, getPointFromJson'), ('GML', 'importGml, importFieldGml')],
     technique=VN)
prop('C28', 'Random values keep to their ranges, random fields to their area and shape',
     'A random number lies in the range it was asked in, uniform, uniform in its logarithm, or exponential with the given rate; a random angle lies in a whole turn. The values depend on the seed and on how many were drawn before, and on nothing else: the same seed, or a copy, gives the same values. A random cell is one closed ring with one corner in each of as many equal sectors as sides were asked for, at distances in the range asked for, scaled so that the library measures the area asked for; fewer than three sides or an area that is not positive are refused with an exception. A convex cell is convex, and one that should not be is not, and they are the first such cells that are drawn.',
     ['inputs', 'histories'], 'every state of the engine, range, area and number of sides',
     'Tests draw some values and look at their mean or at one area.',
     ['src/fields2cover/utils/random.cpp', 'include/fields2cover/utils/random.h'],
     [('numbers', 'getRandomDouble, getRandomLinear, getRandomExp, getRandomExpDist, getAngleRandom'), ('cells', 'generateRandCell, genConvexCell, genNonConvexCell'), ('fields', 'generateRandField, genConvexField, genNonConvexField')],
     technique=VN)

RP = 'src/fields2cover/route_planning/route_planner_base.cpp'
prop('C26', 'Planned routes connect headlands and swaths completely, in the order found',
     'The graph of the headlands links both ends of every swath, and the start/end point, to their closest point of the borders, joins the consecutive points of every border ring, and splits every edge at each node closer than the tolerance to it. The graph of what is left to cover joins each swath through its middle at no cost, in both directions when swaths may be turned and only forwards otherwise, joins every pair of swath ends that may follow one another at the cost of the shortest path between them, and every swath end with the start/end point. The route along an order of nodes takes, for each start, middle and end of a swath in the order, this swath once, reversed when it is driven backwards, connected by the shortest path of the headlands, and starts and ends at the start/end point when there is one.',
     ['inputs'], 'every set of cells and swaths, tolerance and order of nodes; the search for the order itself is the solver\'s',
     'The tests of the route planner are not part of this build and look at one field each.',
     [RP, 'include/fields2cover/route_planning/route_planner_base.h'],
     [('headlands', 'RoutePlannerBase::createShortestGraph'), ('tasks', 'RoutePlannerBase::createCoverageGraph'), ('route', 'RoutePlannerBase::genRoute, transformSolutionToRoute, setStartAndEndPoint')],
     technique=VN)
prop('C27', 'The façade plans with the algorithms its options name, on a copy of the field',
     'Planning the coverage of cells keeps the headlands of the options (none, or the given number of constant width, as wide as the robot), fills what is left with swaths of the width covered by the robot, at the given angle or at the best one for the objective the options name, and joins them along the middle ring of the headlands, or along the borders when there are none. One cell is planned like a list of it. A field is planned on a copy, which is taken to UTM and the result back unless its local system is to be used; the field of the caller stays as it was. A path is the route driven with the kind of turns the options name.',
     ['inputs'], 'every robot, field and combination of options',
     'No test calls the façade with anything but its defaults, and its planner is not part of this build.',
     ['src/fields2cover.cpp', 'include/fields2cover.h'],
     [('routes', 'planCovRoute'), ('paths', 'planCovPath'), ('options', 'Options, getSGObjPtr, getPPTurningBasePtr')],
     technique=VN)
prop('C07', 'Geometries and paths keep every value through text and files',
     'The text of a geometry in each format (WKT, GML, KML, JSON) is the one the geometry library writes for this geometry, and reading text takes the geometry the library reads from it. A path is written state by state, each with position, angle, velocity, length, direction and kind, in the digits asked for and with a decimal point whatever the locale is; a file of a path is read in the same order and every complete state of it is added, in order, to the path.',
     ['inputs'], 'every geometry, text and path, any number of states and digits',
     'Tests write one polygon and one path of two states.',
     ['include/fields2cover/types/Geometry_impl.hpp', 'src/fields2cover/types/Path.cpp', 'include/fields2cover/types/Geometry.h'],
     [('geometries', 'Geometry::exportToWkt, exportToGML, exportToKML, exportToJson, importFromWkt'), ('paths', 'Path::serializePath, loadFile, to_string')],
     technique=VN)

# ---- what no static argument in reach bounds
na('C34', 'Headlands and swaths together cover the field up to the gaps asked for',
   'Every point of the field lies in the headland or within half an operation width of a swath, except for the strip next to the border that is narrower than a swath when overlaps are not allowed.',
   ['inputs'], 'every field, width and angle', 'Tests look at a few rectangles.',
   ['src/fields2cover/swath_generator/swath_generator_base.cpp', 'src/fields2cover/headland_generator/constant_headland.cpp'],
   [('swaths', 'SwathGeneratorBase::generateSwaths'), ('headlands', 'ConstHL::generateHeadlands')],
   'Quantifies over the point sets that GEOS computes in floating point for buffers and intersections; the source of this repository only names the operations. Which operations, with which widths, offsets and angles, is decided by C24 and C25.')
na('C35', 'A decomposition keeps the area of the field up to the width of its cuts',
   'The cells of a decomposition are disjoint and their areas add up to the area of the field, up to the width of the cuts.',
   ['inputs'], 'every field with holes and every angle', 'Tests add up the areas of a few polygons.',
   ['src/fields2cover/types/Cells.cpp', 'src/fields2cover/decomposition/decomposition_base.cpp'],
   [('split', 'Cells::splitByLine'), ('decompose', 'DecompositionBase::decompose')],
   'The area lost is the floating-point result of differences and buffers inside GEOS. The cuts made and the operations applied to the cells are decided by C33 and C09.')
na('C36', 'Turns respect the curvature bounds of the robot and end where they should',
   'Every turn starts and ends at the poses asked for, up to the discretisation, and its curvature and change of curvature never exceed those of the robot.',
   ['inputs'], 'every pair of poses and every robot', 'Tests sample poses and look at the end point.',
   ['src/fields2cover/path_planning/turning_base.cpp', 'src/fields2cover/path_planning/steer_to_path.hpp'],
   [('curves', 'DubinsCurves, DubinsCurvesCC, ReedsSheppCurves, ReedsSheppCurvesHC')],
   'The curves are computed numerically (Fresnel integrals, case searches) by the steering_functions library; no static bound on its results is in reach. That it is asked for the right curve between the right poses with the limits of the robot, and that its result is placed, typed and checked as it should, is decided by C15.')
na('C37', 'Transforming to another coordinate system and back gives the coordinates again',
   'A geometry transformed to another coordinate system and back has its first coordinates, up to the accuracy of the projection.',
   ['inputs'], 'every coordinate inside the area of use of the system', 'Tests go there and back at one place.',
   ['src/fields2cover/utils/transformation.cpp'], [('projection', 'Transform::generateCoordTransf, OGRCoordinateTransformation')],
   'The accuracy of projections is a numerical property of PROJ. Which systems are used in which order, with which axis order and reference point, is decided by C21.')
na('C38', 'The route found has the least cost, visits every swath once and ends',
   'Among all routes that drive every swath once in one of its two directions, the one returned by the search is as short as the time allowed permits, and the search ends within that time.',
   ['inputs'], 'every field and set of swaths', 'The tests of the planner are not part of this build; examples show one field.',
   ['src/fields2cover/route_planning/route_planner_base.cpp'], [('search', 'RoutePlannerBase::computeBestRoute')],
   'The order is the answer of a heuristic solver (OR-tools) to a model with costs; its quality and run time are not a matter of this source. What is added to the graph searched and how the order found becomes a route is decided by C26.')
na('C39', 'Splines stay within their points and follow smooth curves closely',
   'A monotonic spline never overshoots its points, and the distance between a spline and a smooth curve through its points shrinks with the fourth power of their distance.',
   ['inputs'], 'every monotonic sequence of points', 'Tests look at a few places of one spline.',
   ['src/fields2cover/utils/spline.cpp'], [('correction', 'CubicSpline::SetSplineCubic')],
   'An inequality over real arithmetic on unboundedly many coupled coefficients (and its floating-point evaluation); the abstract domain here decides equality of values, not bounds. That splines pass through their points with the natural or corrected coefficients is decided by C30.')
