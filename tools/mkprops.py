#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay easy to edit)."""
import json, os
P=[]
I='include/cslibs_path_planning/'
def p(id,title,statement,over,text,why,files,mech,state,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=x.strip()) for x in state.split(',')],observe_at=[observe],hook_needed=None)))

p('C01','Grid planner only returns connected, collision-free paths that reach the goal',
 "On a 2d grid map, every non-empty path a 4- or 8-connected planner returns starts at the requested start cell, ends at the goal cell (or in a cell the caller's goal test accepts; the built-in tolerance accepts up to that distance per axis plus one search step), and moves only between neighbouring cells of its connectivity. Every cell after the start lies inside the map and is free: neither occupied nor unknown cells are ever entered. With the start or goal outside the map or on an occupied cell no path is returned.",
 ['inputs','configurations'],
 "every map content over {free, unknown, occupied} up to the bounded size, every start/goal pair, both connectivities, every heuristic variant and goal tolerance, every tie-break order of the open set",
 "the suite has no planner test at all; obstacles, ties and tolerance interact combinatorially and a sampled map practically never hits the losing combination",
 [I+'generic/SearchAlgorithm.hpp',I+'generic/DirectNeighborhood.hpp',I+'generic/MapManager.hpp',I+'generic/NodeManager.hpp',I+'generic/Common.hpp'],
 [('search loop',I+'generic/SearchAlgorithm.hpp findPathImp'),('neighbourhood expansion',I+'generic/DirectNeighborhood.hpp iterateFreeNeighbors'),('path extraction',I+'generic/Common.hpp backtrack')],
 'node marks, costs and predecessor links, open set','poses of the path returned by findPath')
p('C02','Grid planner finds a path whenever one exists, and a cheapest one',
 "If a cell the goal test accepts can be reached from the start over free neighbouring cells, the planner returns a path; otherwise it returns an empty one. With an admissible heuristic and an exact goal test the path is a cheapest one, where a step costs its Euclidean length in cells. The answer's cost does not depend on how the open set breaks ties, nor on the map resolution.",
 ['inputs','configurations'],
 "every bounded map, start/goal pair, connectivity, admissible heuristic and tie-break order",
 "optimality is a statement about all alternative paths; a test compares against one expected path on one map",
 [I+'generic/SearchAlgorithm.hpp',I+'generic/DirectNeighborhood.hpp',I+'generic/Heuristics.hpp',I+'generic/NodeManager.hpp'],
 [('relaxation and reopening',I+'generic/DirectNeighborhood.hpp'),('heuristics',I+'generic/Heuristics.hpp'),('open-set bookkeeping',I+'generic/NodeManager.hpp')],
 'g and h values, open set','path cost recomputed from the returned poses')
p('C03','Planner answers do not depend on earlier queries or on other planners',
 "A planner object that has already answered, failed, been aborted or thrown on any sequence of queries and map changes gives for the next query the same answer (found or not, cost, validity, statistics of that search only) as a freshly created one on the same map. Two planner objects used alternately, also with maps of different size or resolution, do not influence one another. A query on a map changed in place, re-announced to the planner, sees the new map.",
 ['histories'],
 "every sequence up to the bounded depth over {set map A/B, query, query aborted by the caller, query with an out-of-map goal, query with an occupied goal} on one planner and interleaved on two planners",
 "node state survives in the planner between queries; which leftovers matter depends on the whole preceding history",
 [I+'generic/SearchAlgorithm.hpp',I+'generic/MapManager.hpp',I+'generic/DirectNeighborhood.hpp'],
 [('per-query initialisation',I+'generic/SearchAlgorithm.hpp init'),('node table (re)initialisation',I+'generic/MapManager.hpp initMap'),('static resolution',I+'generic/DirectNeighborhood.hpp')],
 'node table, open set, static resolution','result of the last findPath in the history against a fresh planner')
p('C04','Aborts, interrupts, time limits and exceptions leave the planner sound',
 "A search stopped at any point by the time limit or by a thread interruption, or by an exception thrown from the caller's intermission or goal test, terminates without a broken result: it either reports no path or a fully valid one, and lets the exception through. The planner remains usable: a later complete query on the same object gives the full correct answer. A time limit that never expires changes nothing.",
 ['fault_sequences','crash_points'],
 "every expansion step of every bounded search as the point where the clock jumps past the limit, the interruption arrives or the callback throws",
 "the abort point is chosen by the environment; a test with real time hits one arbitrary point",
 [I+'generic/SearchAlgorithm.hpp',I+'generic/Intermission.hpp'],
 [('time limit and interruption point',I+'generic/SearchAlgorithm.hpp findPathImp'),('intermission',I+'generic/Intermission.hpp')],
 'open set, node marks, candidates','return value of the aborted query and of the following one')
p('C05','Path candidates honour oversearch distance and caller acceptance',
 "When the caller registers a candidate callback and an oversearch distance, the callback is called with valid paths only and the search returns exactly the path the callback accepted. Otherwise the search goes on until the cheapest open cost exceeds the first candidate's by that distance, collects every candidate on the way, and returns the candidate that ends closest to the goal; with zero distance it returns the first goal found, consulting no callback and keeping no candidate. Candidates of an earlier query never appear in a later one.",
 ['inputs','configurations'],
 "every bounded map and start/goal pair, every oversearch distance of a small set, every callback decision sequence (accept the k-th candidate, or none)",
 "what is collected depends on expansion order, the caller's answers and leftovers of earlier queries",
 [I+'generic/SearchAlgorithm.hpp'],
 [('candidate handling',I+'generic/SearchAlgorithm.hpp findPathImp'),('candidate accessors',I+'generic/SearchAlgorithm.hpp getPathCandidates')],
 'candidate list, first candidate weight','callback arguments, getPathCandidates, returned path')
p('C06','Steering planner paths are drivable and never touch an occupied cell',
 "Every non-empty path of the steering (car-like) planners starts at the requested start cell and heading and ends at the goal within its tolerance (up to one cell and one heading bin); no pose lies on an occupied cell or more than the table padding of 32 cells outside the map. Consecutive poses are linked by one admissible motion: a step forward or backward along the steered heading, with the heading changed by one of the allowed steering angles, and each pose records the steering, direction and cost of its motion. Backward motion appears only if reversing was allowed, the direction of travel changes only with straight wheels, and, for planners that turn over a wheel base of N steps, after N-1 and for N straight motions. Searches without a goal expand states in order of cost and every clear permitted motion from an expanded state leads to an expanded one (same cell, heading bin and direction, at no higher cost), so in free space every pose reachable by up to three motions is found. An uninformed search ends at its first state within the tolerances on distance (to the pose or, static planners, to the segment driven last) and heading, and reversed ones not before owed straight motions are done.",
 ['inputs','configurations'],
 "every bounded obstacle layout, start and goal pose over a small pose grid, both neighbourhood kinds, reversed and forward-only",
 "kinematic validity is a relation on all consecutive pose pairs of all results; the suite checks none",
 [I+'generic/SteeringNeighborhood.hpp',I+'generic/DynamicSteeringNeighborhood.h','src/generic/DynamicSteeringNeighborhood.cpp',I+'generic/SteeringNode.hpp',I+'generic/SearchAlgorithm.hpp'],
 [('primitive expansion',I+'generic/SteeringNeighborhood.hpp advance'),('dynamic primitive expansion','src/generic/DynamicSteeringNeighborhood.cpp advance'),('steering node','include/cslibs_path_planning/generic/SteeringNode.hpp')],
 'steering nodes (pose, steering angle, forward flag)','poses of the returned path')
p('C07','Planner state table maps every in-map pose to its own cell and heading bin',
 "For every pose inside the (padded) map area, the lookup returns a node, the same node for poses of the same cell and heading bin and different nodes otherwise, also for negative coordinates and headings outside one turn; a fresh node carries that cell and a heading of that bin. A pose outside the area is reported as outside, never as another cell's node. A membership query is true for every pose whose node has been created and false for every pose outside the area, and re-initialising empties the table.",
 ['inputs','histories'],
 "every cell and heading bin of maps around the chunk-size boundaries, every pose at cell corners, edges and interiors, every order of first accesses up to the bounded depth",
 "the failures sit at exact multiples of chunk sizes and at the padding border",
 [I+'generic/MapManager.hpp'],
 [('dynamic chunked table',I+'generic/MapManager.hpp DynamicDirectionalStateSpaceManager'),('static directional table',I+'generic/MapManager.hpp DirectionalStateSpaceManager'),('grid table',I+'generic/MapManager.hpp GridMapManager')],
 'chunk table, node arrays','lookup / hasNode results (identity of node)')
p('C08','Segment collision tests agree with the cells along the segment',
 "A segment of the heading-aware map manager reported free (or free-or-unknown) has an end cell that satisfies the predicate and no sample between start and end on a cell that violates it, with samples no farther apart than about half a cell and each cell judged with the segment's heading; a segment whose end is occupied is never free. The plain grid manager judges every cell of the digital line and treats an end outside the map as not free. A segment over entirely free cells is reported free, and free and occupied are never reported together.",
 ['inputs'],
 "every pair of segment end points on a bounded map (also outside it) and every map content with up to the bounded number of obstacles",
 "the predicate ranges over all cells between two continuous points, including padding offsets",
 [I+'generic/MapManager.hpp','src/common/Bresenham2d.cpp'],
 [('segment predicates',I+'generic/MapManager.hpp isFree/isFreeOrUnknown/isOccupied (sx,sy,ex,ey)')],
 'map cells, padding','the three segment predicates')
p('C09','Legacy A* returns valid, complete and near-cheapest paths',
 "The cell-based planner returns true exactly when the goal is reachable from the free start over free 8-connected cells (start equal goal included; the goal cell itself may be non-free), and the resulting way-points run from start to goal over neighbouring cells that are otherwise free. Out-of-map start or goal yields false. The path is never more expensive than the documented integer rounding of costs can explain.",
 ['inputs','configurations'],
 "every map content of bounded size and every start/goal pair",
 "the outcome depends on the complete map; the suite exercises no planner",
 ['src/a_star/AStar.cpp','src/a_star/Node.cpp','src/a_star/OpenList.cpp',I+'a_star/AStar.h',I+'a_star/Node.h',I+'a_star/OpenList.h'],
 [('search','src/a_star/AStar.cpp planPath'),('open list','src/a_star/OpenList.cpp')],
 'open list, visited flags, node costs','planPath return value and getLatestPath')
p('C10','Legacy A* instances give history-independent answers',
 "Planning again with the same object, after any sequence of successful or failed plans and map replacements (same or different size), gives the answer of a freshly constructed planner. The latest path is always that of the last successful call or empty, never a mixture.",
 ['histories'],
 "every sequence of bounded depth over {plan a->b for a small set of pairs, replace map by A/B/C, in-place map edit}",
 "stale node costs only show after particular earlier queries",
 ['src/a_star/AStar.cpp','src/a_star/Node.cpp'],
 [('re-initialisation','src/a_star/AStar.cpp prepareNewSearch / setNewMap')],
 'node array, open list, path','planPath and getLatestPath versus a fresh object')
p('C11','Open list pops in cost order and tracks every node exactly once',
 "Whatever the sequence of insertions and removals, removing from the open list yields a node whose rounded total estimated cost is minimal among those currently stored, each stored node is yielded exactly once and then marked visited, and a visited node is never stored again. Re-inserting a stored node with a lower (rounded) total updates its cost and predecessor; a more expensive re-insertion changes nothing. Emptiness and clearing are reported truthfully.",
 ['histories'],
 "every operation sequence up to the bounded depth over {insert node i with cost c and predecessor p, pop, clear} for a few nodes and cost values including equal ones",
 "ordering bugs need particular multi-step sequences with equal keys",
 ['src/a_star/OpenList.cpp','src/a_star/Node.cpp',I+'a_star/OpenList.h',I+'a_star/Node.h'],
 [('priority storage','src/a_star/OpenList.cpp addNode/getNode'),('node costs','src/a_star/Node.cpp')],
 'multiset/priority storage, node state','popped nodes and their costs, isEmpty')
p('C12','Grid map cells keep their values and have one consistent classification',
 "Reading a cell returns the value last written to it and writing one cell changes no other, for any map size, also after bulk replacement. For thresholds lower < upper every value is exactly one of free (at most lower), occupied (at least upper), or unknown, and a configured no-information value is unknown and nothing else. The answer is the same by cell, by point and with any heading.",
 ['inputs','histories'],
 "all 256 values, all threshold pairs, all no-information settings; all write sequences on small maps of every shape",
 "there are 256*256*256*257 combinations and the boundaries are where it breaks",
 [I+'common/SimpleGridMap2d.h','src/common/GridMap2d.cpp',I+'common/GridMap2d.h'],
 [('classification',I+'common/SimpleGridMap2d.h isFree/isOccupied/isNoInformation'),('storage',I+'common/SimpleGridMap2d.h getValue/setValue/set')],
 'cell array, thresholds','isFree/isOccupied/isNoInformation/getValue')
p('C13','Points and cells convert consistently, and in-map tests are exact',
 "Converting a cell to its point and back yields the same cell for every cell, resolution, origin and map rotation, and every point of a cell's interior converts to that cell. Conversion succeeds exactly for points inside the map rectangle; the in-map test on points agrees with it, also for negative offsets, rotated maps and resolutions other than one. Sub-cell conversions are inverse to each other.",
 ['inputs','configurations'],
 "every cell of bounded maps, every resolution/origin/rotation of a grid, points at fixed sub-cell offsets inside and outside along every border",
 "errors are confined to the border strip of less than a cell and to particular rotation/resolution combinations",
 [I+'common/SimpleGridMap2d.h',I+'common/RotatedGridMap2d.h','src/common/MapMath.cpp'],
 [('conversions',I+'common/SimpleGridMap2d.h point2cell/cell2point'),('rotated conversions',I+'common/RotatedGridMap2d.h')],
 'origin, resolution, rotation','point2cell, cell2point, isInMap')
p('C14','Map areas visit exactly their cells and buffers restore what they saved',
 "Iterating a circular or line area visits every cell of the area exactly as constructed, each with its own value slot, and nothing else: setting an area changes all and only its in-map cells, and area predicates (free, occupied, lacking information) judge exactly those cells: an area lacks information if it consists of unknown cells and does not if none is unknown. Saving an area into a buffer, changing the map there and writing the buffer back restores every cell, also when the area overlaps the map border. Moving a circle's centre shifts the same cells.",
 ['inputs','histories'],
 "every centre, radius, line pair and resolution of bounded maps, and every save/overwrite/restore sequence of two overlapping buffers up to the bounded depth",
 "off-by-one cursors hit only the first or last cell; overlaps and borders need systematic placement",
 [I+'common/GridMap2d.h','src/common/GridMap2d.cpp'],
 [('area cursor',I+'common/GridMap2d.h CircleArea/LineArea getCell'),('bulk operations','src/common/GridMap2d.cpp setAreaValue/getAreaValues/isAreaFree')],
 'cell list, cursor, buffered values','map contents after area operations')
p('C15','Line traversal visits one gap-free digital line from start to end',
 "Walking the cells between two in-map cells starts at the first, ends at the second, visits each cell once, moves by at most one cell in each axis per step, takes exactly max(|dx|,|dy|) steps, and stays within half a cell of the ideal line. With an end outside the map it visits nothing. The walk can be restarted for another line with no trace of the previous one.",
 ['inputs','histories'],
 "every ordered pair of cells of bounded maps, by cell or by point, and every pair of consecutive lines on one object",
 "octants, ties and degenerate lines are many; the suite has none",
 ['src/common/Bresenham2d.cpp',I+'common/Bresenham2d.h'],
 [('line stepping','src/common/Bresenham2d.cpp set/setGrid/next')],
 'error term, current cell','coordinates sequence')
p('C16','Footprint collision tests use the footprint at the queried heading',
 "The oriented footprint test at a cell and heading reports occupied if the cell or any in-map cell of the robot's rectangle rotated to that heading is occupied, and free only if all of them are free; a pose is never reported to lack information where it is free or no cell is unknown, up to the heading discretisation of one bin and one cell of rasterisation. Headings equal modulo a full turn give equal answers. A copy of the map answers like the original and independently of it.",
 ['inputs'],
 "every single-obstacle position on a bounded map, every heading bin (also negative and beyond a turn), several footprints",
 "wrong angle bins only show for particular obstacle/heading combinations",
 ['src/common/CollisionGridMap2d.cpp',I+'common/CollisionGridMap2d.h'],
 [('heading bins','src/common/CollisionGridMap2d.cpp isOccupiedRotated/isFreeRotated'),('footprint raster','src/common/CollisionGridMap2d.cpp RobotArea')],
 'area table','isOccupiedRotated / isFreeRotated')
p('C17','Curve pattern strings are accepted exactly when well-formed',
 "Parsing a Reeds-Shepp word accepts exactly the documented grammar (left and right curves, straights, direction marks, cusps, fixed arc angles) and builds the sequence of segments the word spells; a malformed word is reported as an error. No string crashes the parser, and a word whose shape has no known construction, or a generator without words, simply yields no curve. Curves for a word are generated the same however many words were given before.",
 ['inputs','histories'],
 "every string up to the bounded length over the pattern alphabet plus illegal characters",
 "the set of words is infinite and errors sit in odd combinations of separators and markers",
 ['src/ReedsShepp/CurveGenerator.cpp',I+'ReedsShepp/CurveGenerator.h'],
 [('parser','src/ReedsShepp/CurveGenerator.cpp parse / parse_pattern')],
 'pattern list','return value of parse and the segments of generated curves')
p('C18','Reeds-Shepp curves connect start to goal with bounded curvature',
 "A valid curve starts at the start pose and ends at the goal pose; every segment starts at the pose (position and heading of the robot) where the previous one ended, arcs have the configured radius and turn direction, straight segments go along the heading, and forward or backward motion is as the word says. For every start and goal pose at which a word of the curve-straight-curve, three-curve or four-curve families has such a curve, one is found. Way-points follow the curve in order, no farther apart than the configured distance, up to the end of each segment, and the weight is the sum of the segment lengths weighted by the configured costs.",
 ['inputs','configurations'],
 "every word of the documented families, every goal pose on a grid relative to the start, radii, way-point distances and resolutions of a small set",
 "the geometry has many quadrant and sign cases, each hit by a small part of the pose space",
 ['src/ReedsShepp/Curve.cpp','src/ReedsShepp/CircleSegment.cpp','src/ReedsShepp/LineSegment.cpp','src/ReedsShepp/CurveGenerator.cpp','src/ReedsShepp/GeometryHelper.cpp'],
 [('segment construction','src/ReedsShepp/CurveGenerator.cpp find_path'),('arc geometry','src/ReedsShepp/CircleSegment.cpp'),('line geometry','src/ReedsShepp/LineSegment.cpp')],
 'segment start/end/centre','get_path way-points, weight')
p('C19','Curve search picks the cheapest collision-free word and has no memory',
 "Among the given words the generator returns the curve with the least weight of those that are collision-free on the map, and reports none if all collide. A curve that runs through a region solidly occupied (or outside of the map) for three cells around one of its points is never returned, and one that stays three cells clear of everything always counts as free. The result does not depend on the order of words (up to equal weights), nor on queries, maps, radii or costs used before.",
 ['inputs','histories'],
 "every goal pose on a grid, every single-obstacle position, every order of word subsets, query sequences up to the bounded depth",
 "minimum selection and stale state need several words and several queries",
 ['src/ReedsShepp/CurveGenerator.cpp','src/ReedsShepp/Curve.cpp','src/ReedsShepp/CircleSegment.cpp','src/ReedsShepp/LineSegment.cpp'],
 [('minimum selection','src/ReedsShepp/CurveGenerator.cpp find_path'),('collision check','src/ReedsShepp/CircleSegment.cpp / LineSegment.cpp is_free')],
 'best curve, pattern list, costs','find_path result')
p('C20','Goal regions yield their samples in order and the sampler picks the cheapest',
 "A goal region hands out exactly its configured number of poses, each inside the region it describes (on the ring or around the centroid at the stated radius, heading as specified), evenly distributed, and then reports the end; restarting repeats the sequence apart from randomly drawn radii, and a region asked for a single sample or no opening angle offers the direct one. The gain starts at one for the most direct sample and grows up to two at the outermost. The sampling planner returns the reachable sample with the least gain-weighted path and nothing if none is reachable.",
 ['inputs','configurations'],
 "every sample count, radius, width, start position of a grid, every reachability pattern of the samples, every value of the random source at its boundary values",
 "off-by-one counts and gain order only show with particular counts; the random source must be owned",
 ['src/sampling/RingGoalRegion.cpp','src/sampling/CentroidRadiusGoalRegion.cpp','src/sampling/GoalRegion.cpp','src/sampling/SamplingPlanner.cpp'],
 [('ring samples','src/sampling/RingGoalRegion.cpp nextGoal'),('centroid samples','src/sampling/CentroidRadiusGoalRegion.cpp nextGoal'),('selection','src/sampling/SamplingPlanner.cpp')],
 'sample counter, gain','nextGoal sequence, planner result')
p('C21','Sampled shapes start and end where the shape does and stay on it',
 "Sampling a line or a circular arc at any resolution yields points that lie on the shape, in order, starting at its start point and ending at its end point, in equal steps no longer than the requested resolution; full circles and zero-length lines included. Sampled poses additionally carry the tangent heading of the shape; sampled for backward travel they run from the end to the start with the same headings, and without the start pose exactly that first pose is missing. Arcs and lines constructed from or to a pose touch that pose tangentially with the requested length, angle and direction, and moving the start or end of an arc keeps the other one.",
 ['inputs'],
 "every line and arc over a grid of end points, centres, radii, start and arc angles, both directions, and several resolutions",
 "sign, wrap-around and rounding combinations of arcs exceed any hand-written list",
 ['src/geometry/line.cpp','src/geometry/circle.cpp','src/geometry/shape.cpp'],
 [('line sampling','src/geometry/line.cpp'),('arc sampling','src/geometry/circle.cpp')],
 'shape parameters','toPoints / toPoses')
p('C22','Intersections are sound and complete',
 "Every reported intersection point of two lines, a line and a circle, or two circles or arcs lies on both shapes within the tolerance, and every proper crossing is reported exactly once; disjoint, contained or concentric shapes report none. The result does not depend on argument order or on what the output container held before. The test whether a point is on an arc agrees with the arc's angular range, both ends included.",
 ['inputs'],
 "all pairs of shapes over a bounded grid of centres, radii and end points, including tangent, contained, concentric and parallel cases",
 "degenerate configurations have measure zero for samples",
 ['src/geometry/intersector.cpp'],
 [('intersection routines','src/geometry/intersector.cpp')],
 'output container','intersection output')
p('C23','Tangent constructions are tangent and connect smoothly',
 "Constructed tangent circles touch the given line and circle, tangent arcs begin and end at the touch points, and paths made of them are continuous in position and travel direction from piece to piece. A path between shapes uses the shortest admissible arc; it is found whenever such an arc touching the given segment and arc exists, and none is reported otherwise. Circles turning into the same direction have no inner tangent path.",
 ['inputs'],
 "all circle/line/point configurations over a bounded grid, both directions of travel",
 "inner/outer tangents and directions form many discrete cases with degenerate borders",
 ['src/geometry/tangentor.cpp','src/geometry/circle.cpp'],
 [('tangents','src/geometry/tangentor.cpp')],
 'tangent points','returned lines, circles and paths')
p('C24','Nearest points and distances are true minima',
 "The nearest point of a line segment or arc to a query point lies on the shape, no other point of the shape is closer, and the reported distance is the distance to it, within the tolerance of the shapes. Foot points and projections are the perpendicular ones on the infinite line. The side and signed distance of a point are positive to the left of a line, negative to the right and zero on it.",
 ['inputs'],
 "all shapes and query points over a bounded grid with a dense sampling of the shape as oracle",
 "segment end cases and the circle centre are singular inputs",
 ['src/geometry/line.cpp','src/geometry/circle.cpp','src/geometry/shape.cpp'],
 [('nearest point','src/geometry/line.cpp / circle.cpp')],
 'shape parameters','nearestPoint / distanceTo results')
p('C25','Heuristics never overestimate the cost they are used for',
 "Each distance heuristic is zero at the goal, never negative, and never exceeds the true cost of a shortest path in the neighbourhood it is meant for, on every map and for any pose pair; the maximum combination is the pointwise maximum. The precomputed obstacle-aware heuristic is zero at the goal, equals the cheapest 8-connected cost around the occupied cells wherever such a route exists, and is infinite only on occupied cells.",
 ['inputs'],
 "all cell pairs on bounded maps, all map contents of bounded size, all heading pairs of a grid",
 "admissibility is universally quantified over maps and pose pairs",
 [I+'generic/Heuristics.hpp','src/generic/heuristics.cpp'],
 [('heuristics',I+'generic/Heuristics.hpp'),('obstacle table','src/generic/heuristics.cpp')],
 'precomputed table, static members','compute results versus reference shortest paths')
p('C26','Compile-time rounding is round-half-away-from-zero everywhere',
 "The rounding helper returns the nearest integer for every finite argument whose result fits, halves rounding away from zero, and is odd-symmetric and monotone. It gives the same value at compile time and run time.",
 ['inputs'],
 "every single-precision value in range, and for double precision every half-integer of the range with its neighbouring representable values",
 "the one test samples a handful of values; errors sit one ulp beside a half",
 [I+'common/TmpMath.hpp'],
 [('rounding',I+'common/TmpMath.hpp')],
 'none','returned integer')
p('C27','Progress callbacks fire on their documented schedule in every search',
 "The caller's intermission is invoked at the first step, at every step up to its start limit, and then at every n-th step only, counted per search, and every search gets the same schedule regardless of earlier, aborted or concurrent searches. Callbacks have no effect on the result; a period of zero never calls back.",
 ['histories','configurations'],
 "all start limits and periods of a small range, all search lengths, all sequences of searches up to the bounded depth",
 "counters that survive between searches only show on the second search",
 [I+'generic/Intermission.hpp',I+'generic/SearchAlgorithm.hpp'],
 [('callback schedule',I+'generic/Intermission.hpp')],
 'call counters','steps at which the callback fires')
p('C28','Planners on different threads sharing one map do not interfere',
 "Two planner objects running in different threads over one shared read-only map produce, under every interleaving, exactly the results each produces alone. This holds also when the two use different neighbourhood kinds or maps of different resolution.",
 ['schedules'],
 "every interleaving up to the bounded number of preemptions of two planner threads with scheduling points at every map access",
 "schedules are chosen by the operating system; a test samples very few",
 [I+'generic/SearchAlgorithm.hpp',I+'generic/DirectNeighborhood.hpp',I+'generic/MapManager.hpp'],
 [('shared statics',I+'generic/DirectNeighborhood.hpp resolution'),('map manager',I+'generic/MapManager.hpp')],
 'static members, node tables','paths of both threads versus solo runs')
p('C29','Poses and points compare and compute consistently',
 "Two poses are equal exactly when their positions lie within the distance tolerance and their headings, taken the short way round the circle, within the angle tolerance, whichever comes first in the comparison. Sums, differences, scalings, rotations, polar conversions and lengths of points and poses obey plane vector arithmetic, and appending one path to another appends exactly its poses in their order. Headings are printed in degrees.",
 ['inputs'],
 "all pairs of poses over a grid of positions and headings around the tolerances and multiples of a full turn, all vectors of a grid, all pairs of short paths",
 "tolerances and wrap-around only matter at their borders, which hand-picked values do not touch; aliased and empty paths are easily forgotten",
 ['src/common/Pose2d.cpp','src/common/Point2d.cpp',I+'common/Pose2d.h',I+'common/Point2d.h',I+'common/Path.h'],
 [('pose comparison','src/common/Pose2d.cpp'),('vector arithmetic','src/common/Point2d.cpp'),('path concatenation',I+'common/Path.h')],
 'coordinates, headings, pose lists','results of the operators')
p('C30','Searches completed analytically end drivably in the goal pose, without memory',
 "The way-points a completed search appends after its discrete part continue the path without a jump in position or heading, bend no tighter than the completion's radius, stay clear of solidly occupied regions within the raster of three cells, and end in the goal pose. Wherever the search without completion finds a path the search with completion finds one too. The answer does not depend on earlier searches of the same or other planners.",
 ['inputs','histories'],
 "every obstacle placement of a family, every start and goal heading of a grid, every ordered sequence of queries up to the bounded depth",
 "the completion is attempted at every expanded node and keeps state between attempts, so that failures need a particular sequence of attempts and obstacles",
 [I+'generic/ReedsSheppExpansion.hpp',I+'generic/SearchAlgorithm.hpp'],
 [('analytic completion',I+'generic/ReedsSheppExpansion.hpp'),('completion in the search loop',I+'generic/SearchAlgorithm.hpp')],
 'last attempt position, curve generator, way-points of the curve','poses of the returned path')
p('C31','Caller-defined goals: every state is shown once, the best candidate wins',
 "A steering search with the caller's own goal test shows it every expanded state exactly once, each after its predecessor, never a state on an occupied cell and, without a heuristic goal, in the order of non-decreasing path cost, until the test ends the search; the counters of expanded states agree with what it was shown. The result is a drivable path to the cheapest candidate the test registered (in driving order also for reversed neighbourhoods), or empty if it registered none. An oversearch distance only ends this sequence with the first state dearer than the first candidate plus the distance. Starting from a start configuration, passing callbacks, or having used the planner before gives the same states and path, and nothing of the caller's test remains for later searches.",
 ['inputs','histories'],
 "every start and heading of a grid on every map of a family, every goal test of a family, every stopping point and oversearch distance of a list, all entrances of the search interface",
 "candidates registered out of order, ties and start configurations meet only in particular searches, and a lost or doubled state still yields a plausible path",
 [I+'generic/SearchAlgorithm.hpp',I+'generic/AStar.hpp',I+'generic/SteeringNeighborhood.hpp'],
 [('search loop',I+'generic/SearchAlgorithm.hpp findPathMapNode'),('candidates',I+'generic/SearchAlgorithm.hpp addGoalCandidate'),('start configuration',I+'generic/SearchAlgorithm.hpp initStartNode')],
 'goal candidates, open and closed states, predecessor links','states shown to the test, poses of the returned path')
p('C32','Curve costs on cost maps add up the cells the curve drives over',
 "With map costs the weight of a curve is a sum over the cells along it, and over no cell farther than three cells from it: each counts with the larger of its value and the minimum cell cost, times the cost factors of the motion that passes it, divided by the resolution, once for every segment that passes it; every stretch of the curve is charged. Hence dearer cells never make a curve cheaper, cells outside of the map add nothing, and no cost alone makes a collision-free curve unusable. Among several words the one with the least cost on the map is returned. Without map costs cell values have no influence on the weight.",
 ['inputs','configurations'],
 "every word of the families and every goal of a list, every single cell raised on its own, maps, minimum costs and cut-off maps of a family; word sets with every placement of a dear or impassable block",
 "which cells are charged for which segment only shows when cells are varied one at a time; tests with one uniform map see a plausible total",
 ['src/ReedsShepp/CircleSegment.cpp','src/ReedsShepp/LineSegment.cpp','src/ReedsShepp/Curve.cpp','src/ReedsShepp/CurveGenerator.cpp'],
 [('arc cells','src/ReedsShepp/CircleSegment.cpp testPixel'),('line cells','src/ReedsShepp/LineSegment.cpp weight'),('choice of the mirrored solution','src/ReedsShepp/GeometryHelper.cpp symmetry_helper')],
 'weights of segments and curves','Curve::weight, find_path result')
p('C33','Non-holonomic searches drive permitted moves only and find what is in reach',
 "A search with the non-holonomic neighbourhood, informed by any heuristic or not, runs to its end and returns either no path or one that starts at the requested start cell and heading, ends at the goal within half a step (plus a cell) and an eighth of a half-turn (plus a heading bin), and never leaves the map or crosses an occupied cell. Each pose follows from its predecessor by one permitted move: the heading changes by nothing, the steering angle or, with half steps, half of it; then the car goes one step along the new heading, forward or (where permitted) backward as marked; the first move is straight. Headings are those of the world, also on rotated maps. A change of the direction of travel is made by N straight moves in the new direction and follows N-1 straight ones in the old. The recorded cost adds up the step lengths, 1.5-fold backward, 4-fold at changes. In free space every pose reached by up to four permitted moves is found, for at most one step more. A search that never meets its goal expands, in order of cost, only states that follow in this way, and every permitted free move from one of them leads to an expanded state (same cell, heading bin and direction) that costs no more. Other queries on the planner or elsewhere change nothing.",
 ['inputs','configurations'],
 "every bounded obstacle layout, start and goal pose over a small pose grid; six planners (heuristics, permitted moves, reversed, one to three straight moves at switches); every sequence of permitted moves up to the bounded length as goal",
 "validity is a relation on all consecutive poses of all results, and the straight-move rule spans several of them; nodes that are reached twice only occur in cluttered searches",
 [I+'generic/NonHolonomicNeighborhood.hpp',I+'generic/MapManager.hpp',I+'generic/SearchAlgorithm.hpp',I+'generic/Heuristics.hpp'],
 [('moves',I+'generic/NonHolonomicNeighborhood.hpp advance'),('goal tolerance',I+'generic/NonHolonomicNeighborhood.hpp isGoal'),('state table',I+'generic/MapManager.hpp DirectionalStateSpaceManager')],
 'oriented nodes (pose, direction flag, straight-move counter)','poses of the returned path')
p('C34','Generated mazes join all cells in exactly one way',
 "For every map of at least two cells, every cell size (below two counts as two), every place to begin on the map and every outcome of the random choices the maze generator finishes and leaves the map so that every whole cell is free up to walls of a quarter of the cell size (at least one pixel), the cells are all joined, each pair by exactly one way, openings between neighbours span the whole side, and every other pixel is still wall. It never reads or writes outside of its tables. The space filling curve likewise opens 256 by 256 cells, beginning with cell (1,1), into a single way that passes each once; on smaller maps the part of it that lies on the map appears.",
 ['inputs','configurations'],
 "every sequence of random choices up to the bounded maze size, every map size, cell size and start of a family",
 "a random generator shows a test one of astronomically many runs, and starts in the remainder of a map that the cells do not divide are rare",
 [I+'evaluation/MapGenerators.hpp'],
 [('maze generation',I+'evaluation/MapGenerators.hpp Maze::run'),('space filling curve',I+'evaluation/MapGenerators.hpp HilbertCurve::hilbert_level')],
 'visited cells, stack of open cells, pixels of the map','pixels of the generated map')
p('C35','The precomputed cost table holds the cheapest curve for every start',
 "For every accepted dimension, resolution and number of headings the precomputation tool writes a table headed by the number of cells a side, the number of headings and the resolution; for heading k of n, k full turns over n, it lists row by row for every cell the cost of the cheapest of the forward words LSL, LSR, RSL, RSR, LRL and RLR with radius 2.5 m from that cell and heading to the centre, heading zero, in cells, and 0 where there is no such curve. Values out of range, unknown options and missing options end the tool with a failure status and no table.",
 ['inputs','configurations'],
 "every dimension, resolution and number of headings of a grid, every cell and heading of the tables, every option missing or out of range",
 "the tool is not run by any test; single cells without a curve or a swapped row only show when every entry is recomputed",
 ['src/ReedsShepp/CostPrecomputation.cpp','src/ReedsShepp/CurveGenerator.cpp','src/ReedsShepp/GeometryHelper.cpp'],
 [('table','src/ReedsShepp/CostPrecomputation.cpp precompute'),('options','src/ReedsShepp/CostPrecomputation.cpp main')],
 'table of costs, curve generator','the written file and the exit status')
p('C36','Simulated four-wheel-steering robots drive their arcs and mark their cells',
 "A robot of the four wheel steering simulator moves per step by the given distance, turns by cos(slip) * (tan front - tan rear) * distance / wheel base, with the slip angle atan of the mean of the tangents, and heads in the middle of the step along its mean heading plus its mean slip. The simulator's picture is white at first and after a reset, and after every step black at exactly the cells in which a robot stood at the end of a step since then; robots off the picture mark nothing. Steering angles are drawn anew for all robots in regular intervals, from the eleven multiples of four degrees up to twenty on either side.",
 ['inputs','histories'],
 "every pair of steering angles and every sequence of random steering choices up to the bounded number of changes, runs that cross every edge of the picture",
 "the steering is random and seeded by the time; robots just outside of the picture need a particular run",
 ['src/common/path4ws_simulator.cpp',I+'common/path4ws_simulator.h'],
 [('motion','src/common/path4ws_simulator.cpp Bot4ws::update'),('picture','src/common/path4ws_simulator.cpp updateMap'),('steering','src/common/path4ws_simulator.cpp randomizeSteerAngles')],
 'poses, slip and steering angles of the robots, picture','poses of a robot, pixels of the picture')
p('C37','Drawings of maps and curves are in place and change nothing',
 "Drawing a map colours, with the first row of cells at the bottom of the picture, the pixel of every free cell white and that of every other cell blue, the darker the higher its value, and no other pixel. Drawing a curve onto a picture of any curve the generator returns shows every waypoint, an arrow of 18 pixels along the heading at start (green) and goal (red) and, in the background colour, the circles and lines the curve lies on, each within two pixels of its place mirrored at the map's height; it leaves pixels elsewhere alone (but for a note to the right of the centre of each circle), and neither the curve's weight, waypoints nor ends are changed by it, so that a second drawing, begun at whatever point of the iteration, looks the same. A snapshot is the same drawing shown once; without a picture nothing is drawn or shown. The overlay keeps to the upper left corner.",
 ['inputs'],
 "every content of small maps and the product of words, poses, radii and pictures are enumerated; reference geometry is that of the closed form solutions",
 "drawings are looked at by people; no test compares them",
 ['src/ReedsShepp/CurveRenderer.cpp',I+'ReedsShepp/CurveRenderer.h'],
 [('map','src/ReedsShepp/CurveRenderer.cpp draw_map'),('curve','src/ReedsShepp/CurveRenderer.cpp draw, draw_arrow'),('snapshot and overlay','src/ReedsShepp/CurveRenderer.cpp snapshot_in_new_window, display_overlay')],
 'picture, map and curve before and after','pixels of the picture; waypoints and weight of the curve')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
