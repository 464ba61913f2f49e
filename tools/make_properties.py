#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the texts live)."""
import json, os
G = 'plycutter/geometry/'
I = G + 'impl2d/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

prop('C01', 'Geometry on exact inputs stays exact',
 'Every coordinate, length, area and parameter that the 1D and 2D geometry operations return for exact rational inputs is an exact rational (or an exact integer or infinity) computed without rounding any intermediate value to floating point, and no geometric decision (inside/outside, before/after, keep/drop) is taken on a rounded value. The only permitted approximation is the square root that fixes the radius of the disc polygon used by the 2D buffer, and that radius re-enters the computation as an exact rational.',
 ['inputs'], 'all exact rational inputs to every public 1D/2D geometry operation (constructors, Boolean operations, buffers, projections, areas, point location, intersection primitives)',
 'Tests compare a handful of results for equality; a rounded intermediate value agrees with the exact one on small sample coordinates and differs only on rationals with long expansions.',
 [G+'geom1d.py', G+'aabb.py', I+'geom2d_simple_holes.py', I+'arrangement2d.py', I+'scan2d.py', I+'primitive2d.py', I+'frangle2d.py', I+'segment_tree.py', 'plycutter/plytypes.py'],
 [('rational number type and conversions', 'plycutter/plytypes.py'), ('disc polygon with one square root', I+'geom2d_simple_holes.py')])

prop('C02', 'Inexact numbers are refused where exact geometry is built',
 'A floating-point or otherwise inexact number is never silently turned into an exact coordinate by the exact-geometry entry points: 1D interval end points (infinities excepted), the amount of a 1D buffer, the non-zero amount of a 2D buffer, and the across-joint fractions of fingers are refused with an error when they are not exact, and a 2D polygon vertex coordinate is refused unless it is exact or integer-valued. Every number that is accepted is converted to the rational with exactly the same value.',
 ['inputs'], 'every numeric value of every Python numeric type passed to the listed entry points',
 'Tests only pass well-typed values; whether every path from an entry point to stored coordinates goes through the refusal is a property of all paths, not of samples.',
 ['plycutter/plytypes.py', G+'geom1d.py', I+'geom2d_simple_holes.py', 'plycutter/sheetplex.py'],
 [('exactness gate', 'plycutter/plytypes.py FractionFromExact, FractionFromExactOrInf'), ('polygon coordinate check', I+'geom2d_simple_holes.py polygon')])

prop('C03', 'Geometries, model and build state are immutable values',
 'No operation ever changes a 1D or 2D geometry, a sheet model or a build state that already exists, or a list, array, dictionary or mesh handed in by the caller: every operation leaves its operands and everything reachable from them as they were and returns its answer as a new value. Earlier snapshots of the build state therefore stay valid for ever.',
 ['histories', 'inputs'], 'all sequences of operations on shared geometries, sheet models, build states and caller-owned containers',
 'A test sees a mutation only if it keeps the old operand and looks at it again after the one operation that mutates it; aliasing between snapshots appears only in particular histories.',
 [G+'geom1d.py', I+'geom2d_simple_holes.py', 'plycutter/sheetplex.py', 'plycutter/sheetbuild.py', 'plycutter/heuristics.py', 'plycutter/create_sheetplex.py', 'plycutter/writer.py'],
 [('persistent records and maps', 'plycutter/sheetbuild.py, plycutter/sheetplex.py'), ('fresh lists in every geometry operation', G+'geom1d.py, '+I+'geom2d_simple_holes.py')])

prop('C04', 'Same input and options give the same cut geometry',
 'The outlines written to the DXF file (their coordinates, vertex order, and the order of sheets) are a function of the input mesh and the command line options only. They never depend on string-hash randomisation, object addresses, the clock, the environment, or a random generator other than the one seeded from the random-seed option.',
 ['histories', 'configurations'], 'all runs of the program on the same input: every hash seed, memory layout, time and process history',
 'One test run sees one hash seed and one memory layout; different outlines appear only between runs.',
 ['plycutter/command_line.py', 'plycutter/create_sheetplex.py', 'plycutter/sheetplex.py', 'plycutter/heuristics.py', I+'cell_merger.py', I+'arrangement2d.py', 'plycutter/writer.py'],
 [('iteration in id order', 'plycutter/heuristics.py, plycutter/sheetplex.py, plycutter/create_sheetplex.py, plycutter/command_line.py'), ('seeded random generator', 'plycutter/heuristics.py single_fingers_random'), ('value-hashed cells', I+'cell_merger.py')],
 observe=['the DXF entities'])

prop('C05', 'Operations keep no memory of earlier calls',
 'The result of every geometry operation, heuristic step and pipeline run depends on its arguments alone, never on which operations ran before in the same process. The only process-wide state that survives a call and is ever consulted again is the counter that decides how often the optional sanity check is really run, and it has no influence on any returned value.',
 ['histories'], 'all sequences of calls within one process',
 'Tests run each operation once or twice from a fresh process; stale caches and leaked module state need a particular earlier call.',
 ['plycutter/canned.py', 'plycutter/sheetbuild.py', 'plycutter/heuristics.py', G+'geom1d.py', I+'geom2d_simple_holes.py', I+'arrangement2d.py', I+'pmr_quadtree.py', I+'cell_merger.py'],
 [('debug globals are written, not read', 'plycutter/canned.py, plycutter/sheetbuild.py, '+I+'*.py'), ('default arguments never mutated', I+'pmr_quadtree.py, '+I+'geom2d_simple_holes.py')])

prop('C06', '1D set operations mean pointwise set operations',
 'For any 1D geometries, including unbounded ones, union, intersection, difference, symmetric difference and complement contain a point (other than an interval end) exactly when the Boolean combination of the operands does; buffering by an amount moves every interval end outwards by exactly that amount, dropping intervals that vanish; emptiness, total length, point location, filtering and splitting into pieces agree with that point set. The stored intervals are always sorted, of positive length, pairwise disjoint and non-touching, so equal sets have equal representations, whatever order, overlap or degeneracy the constructor is given.',
 ['inputs'], 'all finite lists of exact intervals (unsorted, nested, touching, degenerate, infinite) and all operation trees over them',
 'The hypothesis tests sample small integer intervals; normalisation errors need specific overlaps or touching patterns.',
 [G+'geom1d.py'], [('normalising constructor', G+'geom1d.py __init__'), ('complement over the sorted end points', G+'geom1d.py __invert__')])

prop('C07', '2D set operations apply the right Boolean to every region',
 'For any 2D geometries, union, intersection and difference (binary and n-ary, for any number of operands) decide every region of the common subdivision with exactly the Boolean function the operation is named after, applied to whether each operand contains the region; no operand is dropped, duplicated or swapped, and shortcuts return an operand only when that equals the full answer. Every result of a full computation is verified region by region against the operands before it is returned.',
 ['inputs'], 'all operand pairs and lists, including empty operands and lists longer than one batch',
 'The tests use a few polygon pairs and unions of at most a few dozen operands; shortcut and batching errors need empty operands or particular operand counts.',
 [I+'geom2d_simple_holes.py'], [('per-region Boolean and self-check', I+'geom2d_simple_holes.py _arrangement_op'), ('batching', I+'geom2d_simple_holes.py union_tree'), ('shortcuts', I+'geom2d_simple_holes.py __or__, __sub__')])

prop('C08', 'Choosing and unchoosing ranges has exactly the documented effect',
 'Choosing a range for one side of a joint adds exactly that range to that side\'s chosen ranges, removes exactly that range from what the other side may still choose, removes exactly the other side\'s fingers for that range from what the other sheet may use, and (unless tentative) adds to the side\'s own sheet exactly its fingers for that range as far as they are still allowed there; unchoosing removes exactly the given range or area from what is still allowed; everything else in the build state is unchanged. A choice that is not allowed any more, or an unchoice of something already chosen, is refused.',
 ['histories', 'inputs'], 'all build states, joints, ranges and sequences of (un)choices',
 'No test exercises the build state operations directly; a swapped side or map shows up only as a bad joint in particular models.',
 ['plycutter/sheetbuild.py'], [('state transitions', 'plycutter/sheetbuild.py choose_interside, unchoose_interside, unchoose_sheet_area'), ('map helpers', 'plycutter/sheetbuild.py map_or_geom, map_sub_geom')],
 state=[('chosen / ok maps', 'areas and ranges chosen, and still allowed', 'plycutter/sheetbuild.py SheetBuild')])

prop('C09', 'Heuristics never retract a choice nor re-allow what was ruled out',
 'Along the whole sequence of heuristic steps, for every sheet and every side of every joint, what has been chosen never shrinks and what is still allowed never grows; what is chosen for a joint side is never allowed for the opposite side afterwards. Smoothing of the allowed area may only remove material that is not chosen.',
 ['histories', 'inputs'], 'every heuristic step applied to every build state, in any order',
 'The only end-to-end test is a smoke test on one small model that looks at nothing but the absence of exceptions.',
 ['plycutter/heuristics.py', 'plycutter/sheetbuild.py'], [('heuristic steps', 'plycutter/heuristics.py'), ('state transitions', 'plycutter/sheetbuild.py')])

prop('C10', 'Fingers and joint coordinates are inverse, and shared by both sheets',
 'Along a joint, turning a range of the joint coordinate into fingers on a sheet and projecting those fingers back gives the same range, and the fingers span the joint strip across from its lowest to its highest offset (or the requested fractions of it). The joint coordinate of a point is the same seen from both sheets of the joint, since both sides use the same 3D direction and the same 3D origin.',
 ['inputs'], 'all joints of all models, all ranges',
 'No test covers fingers or projections; a sign or offset error that cancels for joints through the origin stays invisible in the smoke test.',
 ['plycutter/sheetplex.py', 'plycutter/create_sheetplex.py', I+'geom2d_simple_holes.py'], [('fingers', 'plycutter/sheetplex.py make_fingers'), ('projection', 'plycutter/sheetplex.py project_to_1d, '+I+'geom2d_simple_holes.py project_to_1d'), ('joint coordinate system', 'plycutter/create_sheetplex.py create_intersection, create_inter_side')])

prop('C11', 'Every pair of sheets is examined once and joint records agree',
 'Every unordered pair of distinct sheets is examined for a joint exactly once, and each non-parallel pair yields exactly one joint with one side per sheet, stored under the id built from the two sheet ids. Looking up a side by joint and sheet, listing the sides of a sheet, taking the opposite side, and restricting a model to some sheets are all consistent with that: the opposite of the opposite is the side itself, a side is found on its own sheet only, and a restricted model keeps exactly the joints with both sheets kept.',
 ['inputs'], 'all sets of sheets',
 'The smoke test has one small model with two sheets; index and enumeration errors need three or more sheets or the second side of a joint.',
 ['plycutter/create_sheetplex.py', 'plycutter/sheetplex.py'], [('pair enumeration', 'plycutter/create_sheetplex.py create_intersections'), ('lookups', 'plycutter/sheetplex.py interside, intersides, opposite, side_by_sheet, limit')])

prop('C12', 'Command line options reach the code they configure',
 'Each numeric command line option (thickness, minimum and maximum finger width, support radius, final dilation, random seed) and the input and output file names reach the computation they configure with exactly the value the user gave (or the documented default), through every intermediate call; no option is replaced by another one, by a constant, or modified on the way. Option values are parsed as exact rationals (the seed as an integer).',
 ['configurations'], 'all combinations of option values',
 'The only test runs with a single option; two swapped options or a hard-coded default are invisible unless their values differ.',
 ['plycutter/command_line.py', 'plycutter/canned.py', 'plycutter/create_sheetplex.py', 'plycutter/sheetbuild.py', 'plycutter/heuristics.py'],
 [('option parsing', 'plycutter/command_line.py main'), ('parameter dictionary', 'plycutter/canned.py canned_1')])

prop('C13', 'The DXF file holds every outline once, closed, undistorted, side by side',
 'For every non-empty sheet, every outer outline and every hole of every polygon is written exactly once as a polyline that ends where it starts; all outlines of one sheet are moved by one and the same translation and are otherwise undistorted. Sheets are laid out side by side, each starting to the right of the previous one by at least a positive margin, so that they never overlap.',
 ['inputs'], 'all maps from sheet names to 2D geometries',
 'The smoke test writes a file and never reads it back.',
 ['plycutter/writer.py', G+'aabb.py'], [('layout loop', 'plycutter/writer.py write_dxf')], observe=['the DXF entities'])

prop('C14', 'Nothing is written unless the whole pipeline and final check succeed',
 'The output file is written only after loading, joint generation and a forced final sanity check of the final build state have all completed without error; any failure ends the program with that error and leaves no output file behind. No failure is swallowed on the way, apart from the explicit library option to return the state reached, which the command line never uses; a model without sheets is a failure.',
 ['fault_sequences', 'inputs'], 'every failure (assertion, exception) at every point of the pipeline',
 'Tests contain no failing run, so nothing shows what happens after a failure at any particular point.',
 ['plycutter/command_line.py', 'plycutter/canned.py', 'plycutter/sheetbuild.py', I+'geom2d_simple_holes.py'], [('pipeline and final check', 'plycutter/canned.py canned_1'), ('write last', 'plycutter/command_line.py main')])

prop('C15', 'The only file ever written is the requested output file',
 'A run reads the input file and writes exactly one file, the one named by the output option or, without it, the input name with its extension replaced by .dxf. It creates, changes, deletes or renames no other file, starts no process and opens no network connection.',
 ['inputs', 'configurations'], 'all runs, all options, all paths through the program',
 'A test can observe only the files it thinks of looking at, on the paths it happens to run.',
 ['plycutter/command_line.py', 'plycutter/writer.py'], [('output name', 'plycutter/command_line.py main'), ('single save', 'plycutter/writer.py write_dxf')])

prop('C16', 'Kerf compensation is applied exactly once, to every written sheet',
 'Every geometry written to the output is the final chosen area of one sheet, buffered exactly once by exactly the final-dilation option; no sheet is written undiluted, dilated twice, or under another sheet\'s name, and no sheet with chosen area is left out. The dilation never feeds back into joint generation.',
 ['inputs', 'configurations'], 'all models and all dilation values',
 'The smoke test checks no dimension; the default dilation of 0.05 is smaller than anything a visual check shows.',
 ['plycutter/command_line.py', 'plycutter/canned.py', 'plycutter/writer.py'], [('dilation', 'plycutter/command_line.py main'), ('result record', 'plycutter/canned.py canned_1')])

prop('C17', 'No name, attribute, field, key or argument list dangles on any path',
 'On every path of every function, including error reporting, debugging and options that the command line does not use, each variable read has been bound, each attribute, record field and parameter key that is used exists on the objects that can reach it, and each call of code of this project passes a matching argument list. No path can therefore fail with a name, attribute, key or argument error that has nothing to do with its input.',
 ['inputs'], 'all paths of all functions, including failure-reporting expressions',
 'Error messages, debug branches and unused options are never executed by the tests (several such failures existed).',
 ['plycutter/canned.py', 'plycutter/sheetplex.py', 'plycutter/sheetbuild.py', 'plycutter/heuristics.py', 'plycutter/create_sheetplex.py', 'plycutter/writer.py', 'plycutter/command_line.py', G+'geom1d.py', I+'geom2d_simple_holes.py', I+'arrangement2d.py', I+'scan2d.py'],
 [('record classes', 'plycutter/sheetplex.py, plycutter/sheetbuild.py'), ('function signatures', 'all modules')])

prop('C18', 'The 1D segment index returns exactly the segments containing a value',
 'For any list of closed segments and any value between the smallest and the largest end point, querying the index yields exactly the segments whose closed range contains the value, each exactly once, including values equal to end points, zero-length segments and duplicates.',
 ['inputs'], 'all finite lists of closed segments, all query values within their hull',
 'The randomised test samples small integer segments; boundary handling between open and closed tree nodes has many cases per tree shape.',
 [I+'segment_tree.py'], [('tree nodes and leaves', I+'segment_tree.py')])

prop('C19', 'Bounding boxes are exact',
 'A bounding box grown by any sequence of points is the smallest box containing them all (an empty box contains nothing and intersects nothing); point containment, box-box and box-segment intersection tests answer true exactly when the closed sets share a point, for every relative position including touching, axis-parallel, crossing and enclosed cases.',
 ['inputs', 'histories'], 'all boxes, points, segments, and all orders of growing',
 'The tests check particular configurations; the separating-line test has sign errors that only show for particular slopes.',
 [G+'aabb.py'], [('containment, growth and separating-line tests', G+'aabb.py')])

prop('C20', 'The quadtree search never misses an intersecting item',
 'Searching the quadtree with a query returns every stored item that meets the query anywhere inside the tree\'s bounding box, whatever the insertion order and however often nodes were split; items are never lost when a node splits and never returned unless they were added.',
 ['inputs', 'histories'], 'all item sets, insertion orders, thresholds and queries',
 'The test inserts random segments into one tree; loss on a split needs a particular insertion order.',
 [I+'pmr_quadtree.py', G+'aabb.py'], [('node add / split / find', I+'pmr_quadtree.py')])

prop('C21', 'Finger widths stay within the limits, cover the joint, and alternate',
 'For a joint section that can be divided, the number of fingers is one for which widths between the minimum and maximum finger width exist, every generated width lies within these limits, the fingers are consecutive, start at the start of the section and together span its length, and neighbouring fingers belong to alternating sides. A section that cannot be divided goes to one side as a whole.',
 ['inputs'], 'all section lengths, finger limits, end conditions and random choices',
 'The smoke test looks at no finger; a width can leave the limits only for particular random draws.',
 ['plycutter/heuristics.py'], [('random widths', 'plycutter/heuristics.py random_min_max'), ('finger count and alternation', 'plycutter/heuristics.py single_fingers_random')])

prop('C22', 'Point location classifies by outline, holes and edges correctly',
 'For a point and a polygon with holes, location answers inside exactly when the point is strictly inside the outline and strictly outside every hole, edge when it lies on the outline (vertices included) or on the edge of a hole while inside the outline, and outside otherwise, independent of vertex order and starting vertex; a geometry of several polygons is located by the best answer of its polygons, and an empty one is always outside.',
 ['inputs'], 'all simple polygons with holes, all points, including points level with vertices or on horizontal and vertical edges',
 'Random test points almost never lie level with a vertex, which is where winding-number code goes wrong.',
 [I+'primitive2d.py', I+'geom2d_simple_holes.py'], [('winding number', I+'primitive2d.py locate_point_polygon_winding_number'), ('holes and several polygons', I+'geom2d_simple_holes.py locate')])

prop('C23', 'Intersection points and area formulas satisfy their defining equations',
 'The intersection computed for two segments in general position lies on both lines at the returned parameters; the fraction of a point along a segment reproduces the point, and is none exactly when the point is off the line; the sweep\'s pairwise test returns a point exactly when two non-parallel closed segments meet, and that point lies on both; the shear used by the sweep makes no segment horizontal and is undone exactly in the reported points; the signed area equals the shoelace formula, positive for clockwise outlines.',
 ['inputs'], 'all segments, points and polygons with exact coordinates',
 'The tests check single hand-made segment pairs; an error confined to one orientation or sign combination passes them.',
 [I+'primitive2d.py', I+'scan2d.py'], [('primitives', I+'primitive2d.py'), ('sweep geometry', I+'scan2d.py')])

prop('C24', 'Fractional angles order directions and invert exactly',
 'The fractional angle of a non-zero vector depends only on its direction, lies in [0, 8), grows strictly with clockwise rotation, and rotating a vector by 90 or 180 degrees adds exactly 2 or 4 (modulo 8). Converting a fractional angle to a vector and back gives the angle modulo 8, for every exact angle including negative ones and those above a full turn.',
 ['inputs'], 'all non-zero exact vectors and all exact fractional angles',
 'Tests sample lattice vectors; each octant has its own formula and boundary cases.',
 [I+'frangle2d.py'], [('angle and inverse', I+'frangle2d.py')])

prop('C25', 'No degenerate or wrongly oriented polygon can be represented',
 'Every polygon with holes that exists has a clockwise outline and clockwise hole lists, of non-zero area and with no repeated consecutive vertex (first and last included); constructing anything else raises an error instead of producing a geometry. Reading polygons from an external geometry keeps every outline and every hole, drops only the repeated closing vertex, refuses other kinds of shapes, and re-orients instead of rejecting when asked to.',
 ['inputs'], 'all vertex lists and external shapes',
 'The tests construct valid polygons only.',
 [I+'geom2d_simple_holes.py', I+'primitive2d.py'], [('validation', I+'geom2d_simple_holes.py Simple_Polygon_With_Holes'), ('conversion', I+'geom2d_simple_holes.py from_shapely, polygon')])

prop('C26', 'The facet catalogue lists every triangle of the mesh exactly once',
 'Every triangle of the mesh belongs to exactly one catalogued facet, triangles outside the mesh library\'s facets included, and for each facet the catalogue\'s normal, origin, area and boundary entries at the same position describe that same facet.',
 ['inputs'], 'all meshes, with and without library facets',
 'The one test mesh has large facets only.',
 ['plycutter/create_sheetplex.py'], [('parallel lists', 'plycutter/create_sheetplex.py find_all_facets')])

prop('C27', 'The sanity check covers every sheet and both sides of every joint',
 'When the sanity check is really run, it fails unless, for every sheet, everything chosen is still allowed and, for every side of every joint, everything chosen is still allowed, nothing chosen is still allowed for the opposite side, and the sheet area chosen under the ranges still allowed to the opposite side is negligible. A forced check is always really run.',
 ['inputs', 'histories'], 'all build states, forced and unforced',
 'No test feeds it an invalid state, so a check that looks at nothing would pass.',
 ['plycutter/sheetbuild.py'], [('checks', 'plycutter/sheetbuild.py check, _check')])

prop('C28', 'The starting state allows what is supported, chooses what no joint claims',
 'At the start, for every model: the area allowed for a sheet is exactly the part of its cross-section (the union of its slices) within the support radius of both of its faces; nothing is chosen for any joint; both sides of a joint are allowed the same ranges, exactly those (up to 1000 mm from the origin of the joint) that are ranges of the allowed area of both sheets within the joint strip; and the chosen area of a sheet is exactly the part of its cross-section within 1 mm of the common part of both faces, without the fingers of the ranges allowed to its sides. Exactly the sheets and sides of the model have entries.',
 ['inputs'], 'all models: any number of sheets, joints and faces of any shape',
 'The tests see one model, where face supports and cross-sections nearly coincide, so a dropped or swapped operand changes nothing.',
 ['plycutter/sheetbuild.py'], [('first state', 'plycutter/sheetbuild.py create_sheetbuild')])

prop('C29', 'What is recorded for a sheet describes one slab of the model',
 'Creating sheets from a mesh gives one sheet for each plane that has facets facing out of it and facets facing the other way one thickness below it (positions within 0.1 mm, directions within 0.001), numbered s0, s1, ... starting from the plane with the biggest facet. No facet serves two sheets, and facets that are edges within the slab of a sheet make no sheet of their own. The record of a sheet: its sides are the plane of the biggest facet and the opposite plane one thickness below, both pointing outwards; its frame is the rotation of the sections of the slab, without translation, with its transpose as the inverse; its two faces are the projections of all triangles of the facets of either side, and their intersection; its cross-sections are the union and the intersection of the same sections strictly inside the slab; its outside sections lie just above and just below. Restricting to given sheets leaves out the others and changes neither ids nor records.',
 ['inputs'], 'all meshes of planar facets, any option values',
 'The tests load two or three meshes in which every sheet has one facet per side and sections at all heights are alike, so swapped sides, dropped triangles and wrong sections change nothing.',
 ['plycutter/create_sheetplex.py'], [('sheets', 'plycutter/create_sheetplex.py create_sheets, find_all_facets')])

# ---- not claimable by static analysis (reasons in MANIFEST.json / DESIGN.md)
prop('C50', 'The arrangement\'s cells are exactly the faces of the subdivision',
 'For any set of polygon edges, the computed cells are exactly the faces of the planar subdivision they induce, each with an interior point, and the nesting recorded between cells is geometric containment.',
 ['inputs'], 'all sets of exact segments', 'Tests compare a few hand-made pictures.',
 [I+'arrangement2d.py'], [('arrangement', I+'arrangement2d.py')])
prop('C51', 'The line sweep finds every intersection point',
 'The line sweep reports every point where two or more segments meet, with all segments through it, and nothing else.',
 ['inputs'], 'all finite sets of distinct exact segments', 'Hypothesis samples small coordinate grids.',
 [I+'scan2d.py'], [('sweep', I+'scan2d.py')])
prop('C52', 'The 2D buffer is the Minkowski sum or difference with the disc polygon',
 'A positive 2D buffer is exactly the Minkowski sum of the geometry with the disc polygon, and a negative one exactly the erosion, for outlines and holes of any shape.',
 ['inputs'], 'all geometries and amounts', 'Benchmarks only check that no self-check fires.',
 [I+'geom2d_simple_holes.py'], [('ribbon pieces', I+'geom2d_simple_holes.py')])
prop('C53', 'Cut parts assemble into the model',
 'The cut parts, assembled with the given thickness, fit together without collision and reproduce the input model up to the documented tolerances, and each part is connected.',
 ['inputs'], 'all printable models', 'There is no assembly oracle in the tests.',
 ['plycutter/heuristics.py'], [('heuristics', 'plycutter/heuristics.py')])
prop('C54', 'All plywood sheets in a model are found',
 'Every pair of parallel opposite surfaces at the given thickness in the mesh becomes exactly one sheet, within the tolerances.',
 ['inputs'], 'all meshes', 'One test mesh.',
 ['plycutter/create_sheetplex.py'], [('sheet detection', 'plycutter/create_sheetplex.py create_sheets')])
prop('C55', 'Every run terminates within practical time and memory',
 'For every valid input the program terminates, with time and memory polynomial in the input size.',
 ['inputs'], 'all inputs', 'Benchmarks measure four sizes.',
 [I+'scan2d.py', I+'geom2d_simple_holes.py'], [('loops', I+'*.py')])
prop('C56', 'Merging cells keeps exactly the outer boundary of their union',
 'Merging a set of cells cancels exactly the opposite half-edges and returns the outlines of the union with correct attribution of original cells.',
 ['inputs'], 'all sets of cells of one subdivision', 'One hypothesis test over small grids.',
 [I+'cell_merger.py'], [('merger', I+'cell_merger.py')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
