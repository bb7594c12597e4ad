"""The catalogue of properties; writes properties.jsonl and MANIFEST.json (python3-vt tools/catalog.py)."""
import json
import os

PT, LN, PG, GR, ST, VS = ('geometry/SR_point.py', 'geometry/SR_line.py', 'geometry/SR_polygon.py',
                          'geometry/SR_polygon_group.py', 'geometry/additional_stuff.py', 'SR_Vessel/SR_hauptteile.py')

# id: title, statement, over, quantifier, why the tests cannot, [(mechanism, where)], oracle
P = []


def prop(i, title, statement, over, quant, why, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=i, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech,
                  technique=technique, note=note))


prop('C01', 'Points behave as values',
     'A point is valid exactly while it has two numeric coordinates, it follows every later change of its coordinates, and it has them as floats rounded to 8 decimals. '
     'Two valid points are equal exactly if both coordinates differ by less than the comparison tolerance (1e-5) and they are of the same type; an invalid point is not equal to anything, itself included, and points with the same coordinates have the same hash, also after changes. '
     'Sum, difference, distance, bounding box and the printed representation are those of the coordinates, and none of them changes its operands.',
     ['inputs', 'histories'],
     'all coordinates up to 1e4 (integers, decimals, more decimals than are kept, tiny differences), all non-points, all sequences of setting and emptying coordinates',
     'The tests compare a handful of points; equality near the tolerance, hashes after changes and validity after a history need the pairs and sequences to be generated.',
     [('Point.__eq__, __hash__, isvalid, _set_coords, __add__, __sub__', PT), ('distance', PT)],
     'model-based PBT: random values and coordinate histories against plain numbers',
     'Random search; pairs whose distance is within 20% of the tolerance are not judged.')

prop('C02', 'Lengths, directions, angles, products and moves of segments',
     'Length, vector, unit vector, direction (0 to 360 degrees from the x axis), bounding box, dot and cross product of segments (also the one from a common start, which needs one) and the angles between them are those of their end points, for every direction and also for parallel and opposite segments, and two segments have opposite directions exactly if they are antiparallel. '
     'Reversing a segment swaps its ends and nothing else, twice gives the same segment with the same hash; a segment is not equal but loosely equal to its reverse, and different segments are neither. '
     'Moving and mirroring move exactly the points as told and keep the length; after any of these changes all values are those of the segment as it is now, and no query changes the segments.',
     ['inputs'],
     'all pairs of segments with coordinates up to 1e4 in all directions, zero length ones, exactly parallel and opposite ones, points, moves and mirror axes',
     'The tests ask for a few segments in a few directions; rounding errors for parallel segments, the four quadrants and the axes need many.',
     [('LineSegment.norm, direction, unitvector, crossproduct, dotproduct, angle_between_lines, opposite_direction, reverse, line_reversed, move, mirror_vertical, __eq__, loose_equal', LN)],
     'PBT against an independent formula for every quantity; metamorphic relations (reverse, move, mirror)',
     'Random search; angles of segments shorter than 1e-3 and borderline (anti)parallel pairs are not judged.')

prop('C03', 'On which side of a segment a point is',
     'A point is on the line of a segment, to its left or to its right exactly as the exact geometry says, exactly one of the three; for the reversed segment left and right change places. '
     'A point is within the box of a segment exactly if it lies between the end coordinates, limits included, so that every point of the segment itself is, and the distance of a point to the line is the perpendicular distance.',
     ['inputs'],
     'all segments up to 1e4 and all points: on the line inside, at the ends, beyond, displaced by small known distances, anywhere',
     'The tests use a few well separated points; points on and very close to skew lines need constructed inputs and exact arithmetic.',
     [('LineSegment.is_point_on_line, is_point_to_left, is_point_to_right, is_internal_point, line_point_distance', LN)],
     'PBT with constructed positions against exact rational orientation tests',
     'Random search; points of the box border are judged where they are represented exactly.')

prop('C04', 'How two segments lie to each other',
     'For two segments, being parallel, collinear, continuous (one ends where the other one starts or ends), touching and intersecting (within both segments, at their ends, or only of their lines) is exactly what the exact geometry of their end points says, and the intersection point is the exact one. '
     'All of these answers are the same in both orders and for reversed segments where direction does not matter, they do not depend on where in the plane and in which unit the segments are, and asking changes nothing.',
     ['inputs'],
     'all pairs of non-degenerate segments with grid end points, scaled and moved: sharing ends, collinear, parallel, T-shaped, crossing, apart',
     'There are dozens of relative positions times orders and directions; the tests sample some of each with integers.',
     [('LineSegment.is_parallel, is_collinear, continuous, touch, is_intersecting, intersection_point, intersection_on_endpoint, intersection_on_segment', LN), ('intersecting_lines', PG)],
     'PBT against an exact rational model of the relation; metamorphic (order, reversal, move, scale)',
     'Random search; touching of two segments with both ends in common is not judged.')

prop('C05', 'What two segments have in common',
     'The common part of two segments is their exact set intersection: nothing, the one point, or the segment they share, no matter in which order and direction they are given. '
     'The reported kind of the common part agrees with it, and the overlap of parallel segments is the same part.',
     ['inputs'],
     'all pairs of non-degenerate segments with grid end points, scaled and moved, and pieces of one segment at ratios that floats cannot represent',
     'The many cases of partial overlap, containment, contact at one end and rounding of collinear points are only sampled by the tests, with integers.',
     [('LineSegment.common_part, common_part_type, overlap', LN)],
     'PBT against the exact set intersection computed with rationals',
     'Random search; the flag that tells a mere contact of collinear segments from an overlap is not judged.')

prop('C06', 'Dividing segments',
     'Dividing a segment in n parts gives n equally long, continuous parts in its direction that begin and end exactly at its ends; the point at a ratio is there, and ratios outside of 0 to 1 are rejected. '
     'Inserting a point that is on the segment gives exactly the two parts, a point that is not on it is refused, and the segment itself is never changed.',
     ['inputs'],
     'all segments, numbers of parts from 1 to 60, ratios, points on the segment, beyond its ends and elsewhere',
     'The tests divide two segments; accumulating errors and odd numbers of parts need many.',
     [('divide_line, point_on_line_at_ratio, add_point_on_line', LN)],
     'PBT against linear interpolation',
     'Random search, tolerance 3e-8.')

prop('C07', 'Ordering the segments of a polygon',
     'If the given segments, in any order and any directions, form one simple closed polygon, ordering gives exactly its edges as a continuous closed ring that starts at the corner nearest to the origin and runs in the direction of the first segment, and says so; otherwise it says that it could not, and keeps the edges. '
     'Ordering an ordered polygon changes nothing, the result is valid and loosely equal to the original, and ordering a copy leaves the original alone.',
     ['inputs'],
     'all simple polygons with 3 to 16 corners (thorough: more), all permutations and directions of their edges, shared or separate point objects, edges missing',
     'n! * 2^n arrangements of the edges; the tests use some of a few polygons.',
     [('PolygonLine.order, ordered_copy, _geometry_changed', PG)],
     'PBT: generated simple polygons, shuffled; the ring is known by construction',
     'Random search; no more than about 250 segments (recursion).')

prop('C08', 'Any history of edits of a line follows the list of its segments',
     'After any sequence of appending points at either end, closing, purging, ordering, moving, mirroring and taking closed copies, the line has exactly the segments these edits give when applied to a plain list of directed segments. '
     'All queries (first and last point and segment, closed, open, continuous, discontinuities, points, bounding box, midpoint, neighbours of a point, segments at a point, next segment) agree with that list after every step. '
     'Once a line is purged, coincident points are one object and stay so through later edits; a closed copy shares nothing with the original.',
     ['histories'],
     'all sequences of up to 8 edits of lines with 1 to 6 points or unconnected segments on a grid',
     'Each test makes one or two edits; cached values and shared point objects only go wrong after particular sequences.',
     [('PolygonLine.append_point_at_end, append_point_at_beginning, close, closed_copy, purge, move, mirror_vertical, neighbour, find_segment_by_point, next_segment', PG)],
     'stateful model-based PBT against a list of directed segments',
     'Random search over histories of up to 8 edits.')

prop('C09', 'Area and triangles always belong to the current polygon',
     'Rotating (about the origin or any point), mirroring, moving, purging or ordering a polygon moves exactly its corners as told and keeps lengths and area. '
     'After any sequence of such changes and of added corners, area, triangles and the areas of the triangles are those of the polygon as it is now, however often they were asked for before.',
     ['histories'],
     'all simple polygons with 3 to 8 corners, built at once or corner by corner, and all sequences of up to 6 changes and queries',
     'The cached values are only wrong after query-change-query sequences; the tests query once.',
     [('PolygonLine.area, triangles, triangulate, _delete_triangles, _geometry_changed, rotate_about_origin, rotate_about_xy, mirror_vertical, move', PG)],
     'stateful PBT: the corners are transformed independently, area by the shoelace formula',
     'Random search; tolerances 2e-7 (coordinates) and 1e-5 relative (areas).')

prop('C10', 'Points inside, outside and on the boundary of polygons',
     'For every simple polygon, convex or not and anywhere in the plane, a point that is not on the boundary is either internal or external, exactly as the exact geometry says, and not on the boundary. '
     'Exactly the points of the edges and the corners are on the boundary, and a corner is not internal.',
     ['inputs'],
     'all simple polygons with 3 to 12 corners with positive and negative coordinates and all points: around, inside, on edges, at corners, level with corners, close to edges, far away',
     'The tests check some points of a few polygons; rays through corners and along edges, and polygons left or below of the origin, need generated ones.',
     [('PolygonLine.is_internal_point, is_external_point, is_on_boundary', PG)],
     'PBT against exact point location (rational winding number)',
     'Random search; whether a point inside of an edge is internal or external is not judged.')

prop('C11', 'Triangulation and area',
     'The triangles of a simple polygon have corners of the polygon only, lie inside of it, do not overlap and together have its area, so that they cover it exactly; a convex polygon can always be triangulated by ear clipping. '
     'The area of the polygon, convex or not, in either direction and with corners on straight lines, is its exact area, asking again gives the same, and triangulating does not change the polygon.',
     ['inputs'],
     'all simple polygons with 3 to 12 corners (thorough: more), concave, with collinear corners, both directions, shuffled segments, rotated by any angle',
     'The tests triangulate a few shapes and compare the area; which triangles are formed is not looked at.',
     [('PolygonLine.triangle_mesh, ear_clipping, triangulate, area, detailled_area', PG)],
     'PBT against exact areas, exact point location and exact overlap tests of all triangles',
     'Random search; ear clipping may give up on polygons that are not strictly convex, as it says.')

prop('C12', 'Convexity and orientation',
     'A simple polygon is clockwise exactly if its signed area is negative, else counter clockwise, and never both; reversing or mirroring it changes the direction, rotating it does not. '
     'It is convex exactly if it is equal to its convex hull, independent of its direction, start and position, corners on straight lines included.',
     ['inputs'],
     'all simple polygons with 3 to 12 corners, concave and convex, both directions, any start, any position, rotation and scale',
     'Concave polygons whose first corners turn the other way exist for every start; the tests use a few.',
     [('PolygonLine.isconvex, iscw, isccw, cps', PG)],
     'PBT against exact signed area and exact hull; metamorphic (reverse, mirror, rotate)',
     'Random search.')

prop('C13', 'Convex hulls of points',
     'The convex hull of a set of points is the counter clockwise, closed, valid, convex and purged polygon whose corners are exactly the extreme points, without those on its edges, beginning at the leftmost (then lowest) one. '
     'It does not depend on the order of the points nor on duplicates, which remain unchanged; two points or points on a line give the line there and back, less than two the points.',
     ['inputs'],
     'all sets of 1 to 40 points of a grid (duplicates, collinear points), scaled, in any order',
     'The tests take one cloud.',
     [('convex_hull', PG)],
     'PBT against an independent exact hull; metamorphic (permutation, duplicates)',
     'Random search.')

prop('C14', 'Triangles: area, angles and how two of them lie',
     'Area, the three angles, quality (sum of the deviations from 60 degrees), corners and midpoint of a triangle are those of its corners, also after moving or mirroring it, and a triangle without area is rejected. '
     'Two triangles are congruent exactly if they have the same corners, touch exactly if they have exactly one edge in common, and one encloses another exactly if all of the other one is in it; they overlap exactly if they are different and have inner points in common, and are disjunct exactly if they have neither inner points nor an edge in common.',
     ['inputs'],
     'all pairs of triangles with grid corners, scaled and rotated, with no, one, two or three corners in common, one in the other, crossing, apart',
     'Every combination of common corners and directions is a case of its own; the tests sample a few.',
     [('Triangle.area, angles, quality, congruent, enclosed, overlap, touch, disjunct', PG)],
     'PBT against exact polygon predicates',
     'Random search; relations are judged when no corner lies on an edge of the other triangle, unless it is a common corner.')

prop('C15', 'Removing the corners on straight lines',
     'Removing the collinear points of a simple polygon gives the closed polygon of exactly those corners where the direction changes, leaves the original alone, and removing them again changes nothing. '
     'The reported points on straight lines and the ends of these lines are exactly those of the polygon.',
     ['inputs'],
     'all simple polygons with 3 to 16 corners with any number of extra points on their edges, adjacent ones and the first corner included, in both directions, scaled',
     'Which corners are neighbours on a line, also over the start of the polygon, are combinations; the tests use two.',
     [('remove_collinear_points, PolygonLine.collinear_points', PG)],
     'PBT: exact collinearity of the corners by construction; idempotence',
     'Random search.')

prop('C16', 'Lines from nodes, squares, arcs, rotation matrices',
     'A polygon made from nodes has exactly the segments between them in the given direction (clockwise: the first node, then the others backwards), neighbouring segments share their point, and the nodes remain unchanged. '
     'A square has its side length, corners, area and direction as asked for; an arc has its points at equal angles from the start to the end angle at the radius around the centre, is closed exactly if it is a full circle, runs backwards if it is clockwise, and does not change the centre; a rotation matrix has the cosines and sines of its angle.',
     ['inputs'],
     'all centres, radii, angles (partial, full), numbers of segments, directions, node lists',
     'The tests build one arc, one square.',
     [('arc, square, polygon_from_nodes, rotationsmatrix', PG)],
     'PBT against trigonometric formulas',
     'Random search, tolerance 1e-6.')

prop('C17', 'Equality, hashes and copies of lines',
     'Two lines are equal exactly if they have the same directed segments in the same order, and equal ones have equal hashes; they are loosely equal exactly if they have the same segments in any order and direction, or in any order with the same directions if these matter. '
     'A line contains another one loosely exactly if it has all of its points. Deep copies and the evaluated representation are equal to the original, moving a copy leaves the original alone, a line is not equal to anything that is not a line, and comparing changes nothing.',
     ['inputs'],
     'all lists of 1 to 8 segments on a grid and all their variations: permuted, reversed, one replaced, left out, added or moved',
     'Hash and equality only matter in sets and dictionaries of many lines; the tests compare some pairs.',
     [('PolygonLine.__eq__, __hash__, loose_equal, loose_subset, __repr__', PG), ('LineSegment.__eq__, __hash__', LN)],
     'PBT against equality of plain tuples; metamorphic variations',
     'Random search.')

prop('C18', 'Joining open lines',
     'Joining open lines gives a new line with all of their segments in order, with one connecting segment between two lines exactly where one does not begin where the one before it ended, purged and valid. '
     'If the joined line would cross itself it is refused, and the lines that are joined are never changed.',
     ['inputs'],
     'all lists of two to four lines with 1 to 4 segments on a grid, connected or not',
     'The tests join lines in three ways; that operands stay the same is not tested.',
     [('add', PG)],
     'PBT against concatenation of node lists with an exact crossing test',
     'Random search; joined lines with overlapping segments are not judged.')

prop('C19', 'Walking along segments; dropping loose ends',
     'Walking a set of segments from a point gives the closed ring of all segments connected to that point, in order, exactly if these form a ring without any branch or loose end, otherwise it gives nothing; the start defaults to the first segment. '
     'Simplifying drops exactly the segments that have an end where no other segment is, with the marker points that belong to them, and keeps the others in order; the given segments are never changed.',
     ['inputs'],
     'edges of one or two polygons in any order and direction: complete, with an edge missing, with a loose end, with a chord; all start points',
     'Where the branch or the gap is relative to the start matters; the tests walk two examples.',
     [('walk_segments, remove_outlier_segments, simplify', PG)],
     'PBT against the degrees of the graph of the segments',
     'Random search; dropping loose ends is judged as the single pass it is.')

prop('C20', 'Crossing segments, continuity and validity of lines',
     'The crossing segments of a line are exactly the pairs that have a point but no end in common, listed both ways; the line is continuous exactly if every segment shares a point with the one before it, with the discontinuities reported. '
     'It is closed exactly if it is continuous and ends where it starts, else it is open, and it is valid exactly if it is continuous and nothing crosses. '
     'It is a triangle exactly if it is closed and has three segments between three points that are not on a line.',
     ['inputs'],
     'all lines through 2 to 20 grid points, open or closed, and all lists of unconnected segments',
     'Where a line crosses itself is a matter of pairs of segments; the tests have one or two crossings.',
     [('PolygonLine.crossing_lines, discontinuity, iscontinuous, isclosed, isopen, isvalid', PG), ('intersecting_lines', PG)],
     'PBT against exact intersection tests of all pairs',
     'Random search.')

prop('C21', 'All closed loops of a drawing are found',
     'In a group of lines, the loops found are exactly the simple closed loops of its segments, each one once, each one valid, closed and in order, sorted by the number of segments. '
     'It does not matter how the segments are distributed to lines, ordered and directed, nor whether there are loose ends or separate parts; the lines are not changed, and after the lines are moved the loops are those of the moved lines.',
     ['inputs'],
     'all plane drawings with up to 11 segments: grids, polygons with chords, separate and nested rings, loose ends, bridges, common nodes',
     'The number of graphs and arrangements is exponential; the tests search in four.',
     [('BehalterGraph.find_loops', GR), ('walk_segments', PG)],
     'PBT against an independent enumeration of simple cycles',
     'Random search up to 11 segments (the search is exponential in the code).')

prop('C22', 'A group of lines as a graph',
     'Adjacency (by points and by numbers), numbering of the nodes (0 to n-1, each once), node degrees, list of edges and list of all segments of a group are those of its segments. '
     'A group is valid exactly if its lines are valid, every node has two or three segments, at least three nodes have two, and the number of nodes with three is even; the lines with a segment between given points are found, and a line is found by its representation. '
     'Asking for any of it neither changes a line nor ties it to the others: moving a line afterwards moves it and no other one.',
     ['inputs'],
     'all plane drawings with up to 12 segments distributed to lines in any way, and up to 7 rings with one common node (14 segments)',
     'Degrees, duplicates and numbering depend on the whole graph; the tests look at two groups.',
     [('PolygonGroup.as_adjacency_list, points_numbered, node_degree, as_edgelist, all_segments, isvalid, segments_from_points, polygon_from_repr, representative_graph', GR)],
     'PBT against a dictionary graph built independently',
     'Random search; edges of several lines between the same nodes are not generated.')

prop('C23', 'The areas enclosed by parts: walls, neighbours, contents',
     'In a plane drawing made of parts, the enclosed areas are exactly its bounded faces, each once with its outline in order; the walls of an area are exactly the parts with a segment on its outline, and the common parts of two areas exactly the parts that are walls of both. '
     'Areas inside of other areas are reported as such, for any depth. '
     'The rooms created from such parts are exactly these areas, with the parts around them as outer walls and the parts in them as inner walls.',
     ['inputs'],
     'all plane drawings with up to 12 segments without loose ends: grids, polygons with chords, separate and nested ones, any assignment of the boundaries to parts',
     'Which loop is the union of which others depends on the whole drawing; the tests check three vessels.',
     [('BehalterGraph.cycles, keep_base_polygons, contained_cycles, overlaps_in_cycles, segments_in_cycles', GR), ('Behalter.raum_erstellen, Raum.aussere_wandung, innere_wandung', VS)],
     'PBT against the faces of the drawing computed exactly (half-edge walk)',
     'Random search up to 12 segments.')

prop('C24', 'The outline of vessel parts follows their dimensions',
     'For all dimensions and positions, shells and skirts are the quadrilaterals of their diameters and height, torispherical heads (Klopperboden, Korbbogenboden) have all corners on their cylindrical rim, knuckles (0.1 D, 0.154 D) and cap (D, 0.8 D), symmetric about the axis with the corners where these meet and pointing where the orientation says, and flat heads and room ends are the line across. '
     'The outline is closed and counter clockwise, valid, split in walls and openings where the kind of part has them (a skirt has a wall at its bottom and is open at its top, a shell is open at both), and the graph of the part has the same ends; the characteristic size is half of the (smaller) diameter. A point is inside of a flat head exactly if it is on its line, without the ends. '
     'A part built from a dictionary is of the same class and equal to the one built from arguments, and a dictionary with a missing or an unknown key is refused.',
     ['inputs', 'configurations'],
     'all kinds of parts with dimensions from 0.1 to 50000, any position and orientation, dictionaries complete, incomplete or with extra keys',
     'The tests build each part once or twice with fixed numbers.',
     [('Mantel, StandZarge, TorispherischesBoden, Klopperboden, Korbbogenboden, Flachboden, RaumEnde: __init__, from_dict, make_segments, isvalid, graphrepr_segments, characteristic_size', VS)],
     'PBT against the geometric definition of each part',
     'Random search, tolerance 1e-6 of the size.')

prop('C25', 'The marker points of parts lie on the side they stand for',
     'For all dimensions, positions and orientations, every side wall of a shell, skirt or head, also after shells are cut, has an inner and an outer marker point, which lie beside that wall segment, strictly on the inner and on the outer side of it and close to it. '
     'A flat head has marker points above and below it that stand for neither side, a room end has none, and the graph of a part has exactly the marker points of the part.',
     ['inputs'],
     'shells (cylindrical or conical), skirts, heads, flat heads, room ends with dimensions from 0.1 to 50000 anywhere, shells cut at up to 3 levels',
     'The tests use the points only in whole vessels of a few fixed sizes.',
     [('intex_points of Mantel, TorispherischesBoden, Flachboden, RaumEnde', VS), ('Graph.renew, add_intex_points', GR)],
     'PBT against exact sides of the wall segments',
     'Random search; the points of the bottom of a skirt are not judged.')

prop('C26', 'Cutting parts keeps their outline',
     'Cutting a shell or a skirt at a level between its ends divides exactly the walls that cross the level there, repeatedly if cut again, and keeps the outline, openings and kinds of segments; the graph and its marker points follow. '
     'At its ends or beside it, by a room end that does not reach both walls, and for heads and flat heads nothing is cut or changed, and the result tells which. '
     'A room end that cuts is kept as it is or becomes the two rings outside of the walls with the opening between them.',
     ['inputs', 'histories'],
     'shells, skirts, heads and flat heads of all dimensions, one to three cuts at levels inside, at the ends and outside, by level or by room ends wider, narrower or beside, kept or made a ring',
     'The tests cut two shells at fixed levels.',
     [('Hauptteil.split', VS), ('Graph.renew', GR)],
     'stateful PBT against an independent model of the outline',
     'Random search, tolerance 1e-6 of the size.')

prop('C27', 'The knuckle between a cone and a shell',
     'A knuckle with a radius is the arc tangent to cone and shell at its ends, without one the corner itself, with straight ends as long as the longer of arc and reinforcement on either side; the shell and the cone end where it begins, so that the outlines stay closed and symmetric without gaps and graphs follow. '
     'A skirt or shell outside ends at the knuckle, it does not matter which of the two shells is given first, and all marker points of the knuckle are on their sides. '
     'A knuckle is refused if it has no shell above or more than two parts, if one of the parts is of another kind or the cone does not widen upwards, if a reinforcement is not longer than zero or longer than its part, and if the radius is negative or does not fit. A dictionary gives the same knuckle as arguments, and is refused if a key is missing or unknown.',
     ['inputs', 'configurations'],
     'all converging cones under shells, radii from zero to what fits, reinforcement lengths below and above the arc, with a skirt, a shell or nothing outside, anywhere',
     'Two fixed knuckles are tested; the arc end, the cuts and the skirt depend on all the dimensions together.',
     [('KegelKrempe.make_segments, assert_checking, intex_points, ht_oben, ht_unten', VS)],
     'PBT against the tangent circle computed independently',
     'Random search; reinforcement lengths within 0.002 units of the arc length are excluded.')

prop('C28', 'The rooms of stacked vessels',
     'A vessel that is a stack of shells, cylindrical or conical, with heads at both ends and between them, on a skirt or not, alone or beside another one, has exactly one room between every two successive heads. '
     'The walls of a room are exactly the shells and heads around it, heads and skirts that are elsewhere are not, all rooms have different names, and the vessel has exactly the parts it was given.',
     ['configurations'],
     'all stacks of one to three shells (thorough: four) with every kind of head in either orientation at every junction, parts in any order, metres or millimetres, anywhere',
     'Five kinds of heads and gaps at every junction times shells times skirts times orders; the tests build some fixed vessels.',
     [('Behalter.raum_erstellen, cut_by_raumende', VS), ('BehalterGraph.cycles, find_loops, keep_base_polygons', GR)],
     'PBT: generated layouts whose rooms are known by construction',
     'Random search over layouts.')

prop('C29', 'The rooms of vessels in vessels, jackets and cones',
     'A vessel inside a room of another one has rooms of its own, for any number and depth; the parts that lie in a room without touching its outer walls are its inner walls, and only in the room they are directly in. '
     'A jacket around a shell is a room of its own when room ends close it, cutting the shell there; a cone with a knuckle and a skirt bounds its rooms as a shell does. '
     'All rooms have different names and the vessel has exactly the parts it was given.',
     ['configurations'],
     'stacks in stacks, two in one room, three levels, vessels in two rooms, jackets closed at one or both ends, cones with knuckles, with or without skirts, parts in any order, any unit and position',
     'Nesting, cutting and knuckles only interact in whole vessels; the tests build a few fixed ones.',
     [('Behalter.raum_erstellen, cut_by_raumende, Raum.innere_wandung, aussere_wandung, ganze_wandung', VS), ('BehalterGraph.contained_cycles', GR)],
     'PBT: generated layouts whose rooms are known by construction',
     'Random search over layouts; a room end at the level of a junction is not generated.')

prop('C30', 'On which side of each part its rooms are',
     'For every part of a vessel and every side of it (inner, outer, the two sides of flat heads), the rooms reported for that side are exactly the rooms that lie there, and every part is reported. '
     'A part with no room on a side reports none there, asking again gives the same, and asking does not change the vessel.',
     ['configurations'],
     'all layouts of stacks, skirts, nested vessels, jackets and cones with parts in any order, any unit and position',
     'Sides depend on the orientation of each part and on all the rooms around; the tests compare a few fixed tables.',
     [('Behalter.raum_intex, intex_points of the parts', VS), ('PolygonLine.is_internal_point', PG)],
     'PBT: generated layouts with the sides known by construction',
     'Random search over layouts; a knuckle without radius above a skirt is not judged.')

prop('C31', 'The rooms do not depend on how the vessel is described',
     'The rooms of a vessel, their walls and the sides of the parts remain the same up to names if the parts are given in another order, moved together, given in another unit, turned upside down, renamed, or built from dictionaries, and if a shell is cut in two or replaced by two shells above each other. '
     'Building a vessel, its rooms and its sides does not change the parts that were given.',
     ['configurations', 'inputs'],
     'all layouts of stacks, nested vessels, jackets and cones, and all combinations of these changes',
     'It is a relation between two vessels; tests look at one at a time.',
     [('Behalter.__init__, raum_erstellen, raum_intex', VS), ('BehalterGraph.cycles', GR)],
     'metamorphic PBT: two descriptions of the same generated vessel',
     'Random search over layouts and pairs of descriptions.')

prop('C32', 'Comparing tables of rooms up to the names of the rooms',
     'The comparison of two tables that give the rooms on each side of each part accepts them exactly if there is one and only one way to rename the rooms of one table so that it becomes the other one, and refuses everything else. '
     'The tables are not changed.',
     ['inputs'],
     'all tables with one to four parts and up to four rooms, and their variations: renamed, swapped, merged, a room or part added or dropped',
     'The tests compare a few tables of vessels.',
     [('raum_dict_checker', VS)],
     'PBT against trying all permutations of the names',
     'Random search; small tables.')

prop('C33', 'Where a line meets a sphere',
     'The line through two different points and a sphere have no, one or two points in common exactly as the discriminant says, touching lines included, and the points are those of the line on the sphere. '
     'The points come as a pair, with nothing in place of missing ones, first the one further on in the direction of the line.',
     ['inputs'],
     'all lines through two points of an integer grid and all spheres with integer centre and radius, touching ones constructed',
     'There is no test of touching lines, which need exactly chosen numbers.',
     [('sphere_line_intersection', ST)],
     'PBT against the quadratic equation with integers',
     'Random search.')

prop('C34', 'The Delaunay triangulation of the corners of a polygon',
     'The Delaunay triangulation of the corners uses all of them and no others, its triangles are different, have an area, cover exactly the convex hull, and no corner lies inside of the circle through the corners of a triangle. '
     'Its edges are exactly those of its triangles, and the polygon is not changed. If points are to be added, as many points inside of the polygon are used as well and the same holds for all of them.',
     ['inputs'],
     'the corners of all simple polygons with 3 to 10 corners, no three on a line, any scale and order',
     'There is one test with one polygon; flips and hull edges depend on the order of the points.',
     [('Delaunay2d.triangulate, addPoint, flipEdges, getTriangles, getEdges', PG)],
     'PBT against the exact in-circle criterion and the exact hull area',
     'Random search; the direction of the triangles is not judged.')

prop('C35', 'Polygons that have no area in common',
     'Two simple polygons are disjunct exactly if they have no inner points in common, in both orders: apart, or the two parts of a polygon cut along a diagonal, but not if they cross, if one is in the other one, if one is a part of the other one with common edges, or if they are equal. '
     'Asking changes neither of them.',
     ['inputs'],
     'all pairs of simple polygons in general position or derived from each other by cutting and taking parts',
     'The tests take a few pairs of triangles and squares.',
     [('PolygonLine.disjunct, Triangle.disjunct', PG)],
     'PBT against exact intersection and location tests, and by construction',
     'Random search.')


prop('C36', 'Rooms: names, walls and extent',
     'The rooms of a vessel are named R1, R2 and so on; a renamed room has its new name, and the walls of all rooms and the sides of all parts stay the same with the new name in place of the old one. '
     'All walls of a room are its inner and outer walls, each once; the polygon of a room has exactly the wall segments of these parts (without their openings) and its graph polygon exactly the segments of their graphs. '
     'A point is inside of the graph polygon of a room exactly if it is in the area of the room and not in an area inside of it, and asking changes nothing.',
     ['inputs', 'histories'],
     'all vessels made of parts that form a plane drawing (areas next to and inside of each other), stacks, nested vessels, jackets; all points; all renamings',
     'The tests compare the wall names of a few rooms; the extent of a room, its polygons and renaming are not tested.',
     [('Raum.set_name, ganze_wandung, graph_as_polygon, as_polygon; Behalter.raum_erstellen, raum_intex', VS),
      ('PolygonLine.is_internal_point, simplify', PG)],
     'PBT against the exact faces of the drawing, the segments of the parts and a table of names',
     'Random search; drawings with up to 13 segments.')

prop('C37', 'The chain of segments through the points of a straight line',
     'The segments made from different points of a straight line, given in any order and at any distances, as a list or as a set, join each point with the next one along the line, each once, from one end of the line to the other, so that together they are as long as the line. '
     'A single point gives no segment, and the given points are not changed.',
     ['inputs'],
     'all sets of up to 14 different points on straight lines of any direction and position, all orders',
     'There is one test with a few points in order.',
     [('segments_from_pointset', PG)],
     'PBT against the points sorted by their position on the line',
     'Random search; points that are not on a line are not judged (the result is no shortest chain then).')

prop('C38', 'The marker points of a line',
     'The internal, external and indifferent marker points of a line are exactly those that were added as such, in this order, valid, with the coordinates given and tied to the segment given with them, or to none. '
     'They do not follow later changes of the given points, change neither the segments nor the points of the line, and a copy of the line has its own ones, tied to its own segments.',
     ['inputs', 'histories'],
     'all histories of adding markers of the three kinds, changing the given points, moving and copying the line',
     'The tests use the markers of vessel parts only; nothing tests histories and copies.',
     [('PolygonLine.add_internal_point, add_external_point, add_indifferent_point, internal, external, indifferent', PG),
      ('IntexPoint', PT)],
     'model-based PBT: histories against plain lists',
     'Random search.')


def files(p):
    ret = []
    for _, w in p['mech']:
        if w not in ret:
            ret.append(w)
    return ret


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                'anchors': {'files': files(p), 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'hook_needed': None}}, ensure_ascii=False) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3-vt -m pbt.driver %s' % p['id'],
               'thorough_cmd': 'VERIF_TIER=thorough python3-vt -m pbt.driver %s' % p['id'],
               'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'exploration',
               'level_note': p['note'] + ' Trusted: the generators and the oracle in pbt/props/%s.py, Hypothesis, '
                                         'PyPy floats.' % p['id'].lower()} for p in P]
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q pbt && test -x /opt/pypyvenv/bin/python',
                   'checks': checks, 'not_applicable': [],
                   'notes': 'No build step: the checks import the sources of /repo with PyPy 3.9 at run time. '
                            'Known findings and repaired defects: known_findings.txt.'}, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
