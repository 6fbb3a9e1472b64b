G = "src/domain/geometrics/"
prop("C01", "Coordinates and points compare with one tolerance, consistently",
 "Two coordinates count as equal exactly when their difference is smaller than the equality tolerance, symmetrically and reflexively, and != is the negation. Their order (<, >, <=, >=) is that of the numbers they hold, and sums, differences, distances and middles are those of the numbers. Two points are equal exactly when both coordinates are, and points add, subtract and average coordinate by coordinate.",
 ["inputs"], "every pair of doubles (bit patterns), including those a rounding apart",
 "Tests compare a few literals; nearly-equal doubles on either side of the tolerance are unbounded in number.",
 [G + "coord.cpp", G + "coord.hpp", G + "point.cpp"], [("operator<=> / operator== on Coord", G + "coord.cpp"), ("operator== on Point", G + "point.cpp")])
prop("C02", "Bounding boxes and their overlap predicates are exact",
 "The bounding box of a segment or an outline is the tightest axis-aligned box containing it. Two ranges, or two boxes, overlap exactly when they share a point, and strictly overlap exactly when their interiors meet; both answers are symmetric, and a range contains a coordinate exactly when it lies between the bounds, bounds included. A height range is ordered whatever the order of its ends.",
 ["inputs"], "all boxes and points on integer grids",
 "Tests sample a handful of relative positions out of the dozens of orderings of box sides.",
 [G + "bounding.cpp", G + "polygon.cpp"], [("bounding, does_overlap, does_overlap_strictly", G + "bounding.cpp"), ("detect_bounding", G + "polygon.cpp")])
prop("C03", "The relation between two segments is the exact geometric one",
 "Two segments on one line are reported as overlapping when they share a point and as colinear otherwise; two segments on different lines as crossing when they share a point (ends included) and as apart otherwise. A point is reported on a segment exactly when it lies between its ends, ends included. The answer does not depend on the order of the segments.",
 ["inputs"], "all quadruples of grid points",
 "Tests sample some tens of configurations; the degenerate ones (touching ends, T junctions, parallel diagonals) are many.",
 [G + "segment.cpp", G + "relation.cpp"], [("Segment::relation_to", G + "segment.cpp")])
prop("C04", "Intersections, overlaps and merges of segments are exact",
 "Two crossing segments have an intersection point and it lies on both, in either order. Two parallel axis-aligned segments have an overlap, and a merge, exactly when they are on one line and share a point; the overlap is then exactly their common part and the merge spans both. Perpendicular segments neither overlap nor merge.",
 ["inputs"], "all quadruples of grid points in the stated configurations",
 "Tests sample a few of the orderings of four end points.",
 [G + "segment.cpp"], [("intersection, overlap, merge", G + "segment.cpp")])
prop("C05", "A point is found inside, outside or on a polygon exactly",
 "A point on the outline of a polygon is reported on it, a point enclosed by the outline (odd number of crossings of any ray) inside, any other outside. This holds for convex and concave outlines, in both rotations, wherever the point lies relative to the vertices.",
 ["inputs"], "all points and outline coordinates on integer grids",
 "Tests check a few points; rays that hit vertices or run along edges depend on exact alignment.",
 [G + "polygon.cpp"], [("Polygon::relation_to, ray casting with retries", G + "polygon.cpp")])
prop("C06", "A polygon derives rotation, box, edges and outward normals from its outline",
 "A polygon has one edge per vertex, edge i joining vertex i-1 to vertex i, with the vector, axis and direction of that pair. Its rotation is the sign of the enclosed area and its bounding box is tight; its z range is ordered whatever order its bounds were given in. The normal of every axis-aligned edge of a simple outline points out of the polygon, whatever the rotation and first vertex.",
 ["inputs"], "all outlines of the stated shapes on integer grids, both rotations, all first vertices",
 "Tests check a few literal polygons.",
 [G + "polygon.cpp", G + "edge.cpp"], [("Polygon constructor", G + "polygon.cpp"), ("detect_edge_normal", G + "polygon.cpp"), ("Edge constructor", G + "edge.cpp")])
prop("C07", "Axes, planes, views and normals correspond consistently",
 "Every plane shows exactly the two axes it is named after, in a right-handed view, and converting an axis to a view direction and back is the identity. Reversing a view direction or a normal twice gives it back. The space axis and fixed coordinate of an axis-aligned segment are those across its direction, and diagonal or zero-length segments have none.",
 ["inputs"], "all planes, axes, view directions, normals and segment directions; points on a grid",
 "Only the joint consistency of all tables matters to the mesher; tests look at entries one by one.",
 [G + "space.cpp", G + "normal.cpp", G + "segment.cpp"], [("transpose, reverse, cast, coord", G + "space.cpp")])
prop("C08", "Materials have one priority order and a sound deduced kind",
 "Ports rank over conductors over dielectrics over air, as a total order. From any electrical constants, vacuum constants give air, vacuum constants with positive electric conductivity give a conductor, anything else a dielectric.",
 ["inputs"], "all pairs and triples of material kinds; all triples of doubles",
 "Tests list some constants; NaN, infinities and values next to the defaults are not among them.",
 ["src/domain/material.cpp"], [("operator<=>", "src/domain/material.cpp"), ("deduce_type", "src/domain/material.cpp")])
D = "src/domain/"
M = D + "mesh/"
prop("C10", "Every place with edges to mesh gets exactly one policy, of the right kind",
 "After the edges of a plane are processed, every coordinate that holds axis-aligned edges to mesh has exactly one policy on the axis across them, and no other coordinate has any. The policy is thirds on the metal side when its edges all face one way, halves when they face both ways, and a single line when one has no side. Edges that are not to mesh ask for nothing and reversed edges count as facing the other way.",
 ["inputs"], "all placements of two or three polygons (coordinates within stated grids), any sides, any edge hidden or reversed",
 "Tests use a few literal boards; coincidences between coordinates of edges are combinatorial.",
 [D + "board.cpp", D + "conflict_manager.cpp", D + "conflicts/conflict_colinear_edges.cpp", D + "meshline_policy_manager.cpp"],
 [("Board::detect_colinear_edges / detect_individual_edges", D + "board.cpp"), ("ConflictColinearEdges::auto_solve", D + "conflicts/conflict_colinear_edges.cpp"), ("add_colinear_edges", D + "conflict_manager.cpp"), ("add_meshline_policy", D + "meshline_policy_manager.cpp")])
prop("C11", "An edge is hidden exactly when other polygons hide all of it",
 "An axis-aligned edge is left out of the mesh exactly when polygons of at least its priority, at meeting heights, together cover all of it. An edge drawn by two polygons at the same place stays visible in at least one of them. The outcome does not depend on the order in which polygons are given nor on their rotation.",
 ["inputs"], "all placements of two polygons, and of several polygons over one edge, on integer grids",
 "Tests sample few overlaps; hiding depends on the relative order of many coordinates.",
 [D + "board.cpp", D + "conflicts/conflict_edge_in_polygon.cpp", D + "conflict_manager.cpp"],
 [("Board::detect_edges_in_polygons", D + "board.cpp"), ("ConflictEdgeInPolygon::auto_solve", D + "conflicts/conflict_edge_in_polygon.cpp"), ("add_edge_in_polygon", D + "conflict_manager.cpp")])
prop("C12", "An edge faces the material that ranks higher",
 "An axis-aligned edge of a polygon is reversed exactly when the material right outside of it outranks the polygon's own. That outside material is the one of the polygon with the highest priority, then the highest rank, among other polygons that reach right outside the edge at a meeting height, else the background. No edge is hidden by this step.",
 ["inputs"], "all material kinds, priorities, heights and relative positions within stated bounds",
 "Tests use a few literal boards.",
 [D + "board.cpp", D + "material.cpp"], [("Board::adjust_edges_to_materials, find_ambient_material", D + "board.cpp")])
prop("C14", "Meshes on an axis honour the rules across intervals",
 "On every axis the mesh lines strictly increase and none are farther apart than the maximum distance; on both sides of a thirds policy lines lie at one and two thirds of one common distance, around a halves policy at one half of it. A single-line policy is itself a line. Consecutive enabled policies delimit exactly one interval each.",
 ["inputs"], "all kinds and distances of two to four policies on an axis, within stated bounds",
 "Tests check a few literal meshes; intervals shrink each other's distances, so outcomes depend on the whole axis.",
 [D + "meshline_policy_manager.cpp", M + "interval.cpp", M + "meshline_policy.cpp"],
 [("MeshlinePolicyManager::detect_intervals, mesh", D + "meshline_policy_manager.cpp"), ("Interval::mesh", M + "interval.cpp")])
prop("C13", "Meshline policies too close to each other are merged, closest first",
 "Afterwards no two enabled policies of an axis are within the proximity limit of each other, and the process ends. Each merge takes the two closest enabled policies within the limit, disables both and adds one: a single line at the place of the one that was (in the middle if both were), else thirds in the middle if both were thirds of the same side, else halves in the middle. Policies with no neighbour within the limit are left alone, and going back in time undoes the merges.",
 ["inputs"], "all sets of two to five policies of any kinds at any coordinates, any limit, within stated bounds",
 "Tests use a few literal pairs; merges cascade, since a merged policy may again be too close to another.",
 [D + "meshline_policy_manager.cpp", D + "conflicts/conflict_too_close_meshline_policies.cpp", D + "conflict_manager.cpp"],
 [("detect_and_solve_too_close_meshline_policies, detect_closest_meshline_policies", D + "meshline_policy_manager.cpp"), ("ConflictTooCloseMeshlinePolicies::auto_solve", D + "conflicts/conflict_too_close_meshline_policies.cpp"), ("add_too_close_meshline_policies", D + "conflict_manager.cpp")])
prop("C15", "Fixed mesh lines are honoured exactly, once, and across undo",
 "Every fixed mesh line asked for gives exactly one enabled single-line policy at its exact coordinate on its axis, however often it is asked for, and no other. It is a line of the final mesh unless another fixed line is within the proximity limit. Undoing and redoing any later work, merges included, removes and restores these policies and their state exactly.",
 ["inputs", "histories"], "all sets of up to four lines at any coordinates, with undo, redo and repetition of steps",
 "No test adds fixed lines and travels; duplicates and merges depend on coordinates.",
 [D + "board.cpp", D + "meshline_policy_manager.cpp"], [("Board::Builder::add_fixed_meshline_policy", D + "board.cpp"), ("add_meshline_policy", D + "meshline_policy_manager.cpp")])
prop("C16", "Progressions of lines have the stated ratio, limits and validity",
 "The lines computed on one side of an interval start at the policy's distance and grow each gap by the smoothness factor at most, never beyond the maximum distance, until the room is filled with at least the minimum number of lines; what rounding leaves of the room is no gap. A progression is accepted exactly when it is long enough and its last gap respects the limit. The limit of a side is its last gap times the smoothness, capped at the maximum distance, and the stricter side limits both.",
 ["inputs"], "all distances, limits and rooms within stated grids; rooms of any double for distances of tenths",
 "Tests use a handful of parameter sets.",
 [M + "interval.cpp"], [("find_ls, is_ls_valid_for_dmax_lmin_smoothness, find_dmax", M + "interval.cpp")])
prop("C17", "The mesh of an interval honours smoothness, distances and minimum counts",
 "Between two policies the lines strictly increase, by more than rounding, lie inside, include the middle, and no gap exceeds the maximum distance. From each policy gaps grow by at most the smoothness factor, with at least the minimum number of gaps per side, starting at the share of the policy's distance its kind asks for. Distances at policies never exceed the maximum or half the interval.",
 ["inputs"], "all pairs of policy kinds, positions, lengths and limits within stated grids",
 "Tests mesh a few literal intervals; the solver iterates and its outcome depends on rounding and order.",
 [M + "interval.cpp", M + "meshline_policy.cpp"], [("Interval::auto_solve_d, auto_solve_smoothness, mesh", M + "interval.cpp")])
U = "src/utils/"
prop("C18", "Travelling in time restores every object's state",
 "After any history of state changes, object creations and travel, every tracked object shows the state set at the nearest ancestor of the timepoint travelled to (its initial state before its creation). A new state always follows the timepoint the user stands at, and states already set stay available unchanged. Travel to a timepoint of no known history is refused and changes nothing.",
 ["histories"], "all programs of a few operations over several objects with symbolic states",
 "Tests replay a few fixed histories; branching histories with lazy travel are combinatorial.",
 [U + "state_management.hpp", U + "state_management.cpp"], [("Originator::actually_go, set_state", U + "state_management.hpp"), ("Caretaker::go_without_remembering", U + "state_management.cpp")])
prop("C19", "Undo and redo walk the remembered history linearly",
 "Undoing n remembered steps leads to the timepoint n steps back, redoing leads forward again, and both are announced possible exactly when that many steps exist and do nothing otherwise. Unremembered work counts as one step to undo. New work after an undo drops what was undone.",
 ["histories"], "all programs of a few operations (work, remember, undo n, redo n) with symbolic n",
 "Tests replay a few fixed histories.",
 [U + "state_management.cpp"], [("Caretaker::undo/redo/can_undo/can_redo", U + "state_management.cpp"), ("stop_browsing_user_history", U + "state_management.cpp")])
prop("C20", "Garbage collection removes exactly the unreachable timepoints",
 "After garbage collection a timepoint exists exactly when it is an ancestor of, or is itself, a pinned, remembered or current timepoint. Surviving timepoints keep their annotations and show the same states as before; the rest is forgotten. A reset leaves an empty history.",
 ["histories"], "all shapes of small histories with any marking of their timepoints",
 "Tests use a few fixed trees.",
 [U + "state_management.cpp", U + "state_management.hpp", U + "tree_node.cpp"], [("Caretaker::garbage_collector", U + "state_management.cpp"), ("Originator::erase", U + "state_management.hpp")])
prop("C21", "The history tree answers ancestry questions exactly",
 "For any tree and pair of nodes, parent, root, ancestors, descendants, leaves and nearest common ancestor are the graph-theoretic ones. Erasing a set of nodes removes exactly those among the descendants together with everything below them.",
 ["inputs"], "all trees of up to 6 nodes, all pairs and all subsets",
 "Tests use one fixed tree.",
 [U + "tree_node.cpp"], [("TreeNode", U + "tree_node.cpp")])
prop("C09", "Diagonal edges get angles, zones and a finer mesh exactly where they are",
 "Every corner at a diagonal edge and every point where an edge crosses a diagonal one is an angle, and nothing else is. Each run of overlapping diagonals along an axis is one zone with exactly its extent; its ends, and the inner angles of at least the minimal angle, ask for mesh lines. Intervals within a zone get the finer limit, others keep the general one, and going back in time undoes all of it.",
 ["inputs", "histories"], "outlines of several shapes with diagonals at any place, rotation and plane; any minimal angle",
 "Tests use a few literal polygons and do not travel in time across these steps.",
 [D + "board.cpp", D + "conflict_manager.cpp", D + "conflicts/conflict_diagonal_or_circular_zone.cpp", D + "meshline_policy_manager.cpp", G + "angle.cpp"],
 [("Board::detect_diagonal_angles, detect_diagonal_zones", D + "board.cpp"), ("ConflictDiagonalOrCircularZone::solve_angles, solve_intervals", D + "conflicts/conflict_diagonal_or_circular_zone.cpp"), ("detect_intervals_per_diagonal_zones", D + "meshline_policy_manager.cpp")])
prop("C22", "Steps can be run one by one, all at once, and again from any step",
 "Running the steps one by one gives what running them all at once gives, each next step being offered exactly until the last is done. Going before a step shows exactly what the steps before it made, and running on from there gives the same as the first time. Undo and redo across steps show the same boards again.",
 ["histories"], "boards of several kinds; all programs of a few moves (next, before the previous step, again from a step, undo, redo)",
 "No test runs the application's steps; a program of moves branches the history in many ways.",
 ["src/app/openemsh.cpp", "src/app/steps.hpp", D + "board.cpp", U + "state_management.cpp"],
 [("OpenEMSH::run, run_next_step, run_from_step, go_before", "src/app/openemsh.cpp"), ("next, that_and_after", "src/app/steps.hpp")])
prop("C23", "The mesh depends on the geometry alone",
 "From geometry to mesh, the policies and lines come out the same in whatever order polygons and fixed lines are given, however outlines are rotated or start, whichever way heights are bounded, and in whichever plane the board lies; moving everything moves the mesh. Policies in use stay apart by more than the limit, fixed lines away from each other are lines of the mesh, and lines are distinct and at most the maximum distance apart.",
 ["inputs"], "two boxes in symbolic relation with mixed materials and priorities, or outlines with diagonals at any place, up to four fixed lines at any place, all planes",
 "Tests run no board through the whole pipeline twice; which step would let order or orientation through depends on the relation of edges.",
 [D + "board.cpp", D + "conflict_manager.cpp", D + "meshline_policy_manager.cpp", "src/app/openemsh.cpp"],
 [("OpenEMSH::run_all_steps", "src/app/openemsh.cpp"), ("Board::Builder, Board steps", D + "board.cpp")])
PA = "src/infra/parsers/parser_from_csx.cpp"
SE = "src/infra/serializers/serializer_to_csx.cpp"
prop("C24", "Geometry read from a file becomes its projections",
 "Each supported primitive yields, in every plane processed, a polygon of its property's material and priority (ports above all) whose outline and extent across bound exactly the solid. Flat polygons show in their own plane only, with a fixed line at their elevation; points yield fixed lines only. Transformed, unsupported or vertexless primitives, and those of unsupported properties, yield nothing.",
 ["inputs"], "all primitives with one coordinate direction at any place, all normals, planes, priorities and property kinds, within stated bounds",
 "No test reads a file; a projection that mixes up axes or bounds is right for symmetric shapes.",
 [PA, D + "board.cpp", G + "polygon.cpp"], [("ParserFromCsx::Pimpl::parse_primitive and parse_primitive_*", PA), ("circle_to_points", G + "polygon.cpp"), ("Board::Builder::add_polygon*", D + "board.cpp")])
prop("C25", "Parameters, lines and materials are read as the file gives them",
 "Parameters are those of the file if asked for, else the defaults, and the caller's go above. Fixed lines are exactly those of the parameters in their unit, those of the old mesh if kept, and the caller's; an old mesh is noticed. A material's kind follows from its constants, colours and background are the file's, and files that cannot be read, or whose parameters no mesh can meet, are refused.",
 ["inputs"], "any values of parameters, constants and colours, given or not; lines at any place on any axis",
 "No test reads a file; which values are left out or overridden combines freely.",
 [PA, D + "material.cpp"], [("parse_oemsh, parse_grid, parse_property, ParserFromCsx::run", PA), ("Material::deduce_type", D + "material.cpp")])
prop("C26", "A mesh written to a file reads back as it was",
 "The grid of the written file has, on exactly the axes asked for, exactly the lines of the mesh (and of the policies in use, if asked for) at their exact places; old lines are gone and everything else stays as it was. Parameters are in the file exactly when asked for and read back equal. An input that cannot be read is reported and nothing is written; overwriting is noticed unless forced.",
 ["inputs"], "lines at any place down to 2^-24, all axes, options, old grids and shapes of files; any parameters",
 "No test writes a file; loss of digits or of other content depends on values and on the file.",
 [SE, PA, "src/app/openemsh.cpp"], [("SerializerToCsx::visit", SE), ("OpenEMSH::parse, write, is_about_overwriting", "src/app/openemsh.cpp"), ("ParserFromCsx::parse_grid", PA)])
prop("C27", "The command line becomes the parameters it spells",
 "Each option given sets its parameter to its value and each option left out leaves the default; fixed lines given land on their axis, whatever the case of the letter and however the options are split. Planes and axes asked for are those processed, and all are when none is. Input, output and format are those given, by place or by option; senseless command lines, and distances no mesh can meet, end with an error and nothing else does.",
 ["inputs"], "every combination of few options, in both spellings, with any values",
 "No test runs the command line; which options combine or shadow each other is combinatorial.",
 ["src/ui/cli/cli.cpp", "src/utils/map_utils.hpp"], [("ui::cli::cli", "src/ui/cli/cli.cpp"), ("reverse_kv, map_with_aliases", "src/utils/map_utils.hpp")])
prop("C28", "Diagrams and listings show the board as it is",
 "A diagram is well formed and has each polygon, edge, conflict, policy, interval and line exactly once, in its place and with its own values, links between what is related and to nothing else; parts left out leave the others as they are. A listing shows every conflict of an edge in polygons or of colinear edges, in order, with the edges, polygons and parts it is of and what was decided. Every value of every enumeration has a name of its own.",
 ["inputs"], "boards of two boxes in any plane and relation, at any place, after several numbers of steps, any parts left out",
 "No test prints a board; a dangling link or a value of a neighbour shows only for some relations.",
 ["src/infra/serializers/serializer_to_plantuml.cpp", "src/infra/serializers/serializer_to_prettyprint.cpp", "src/infra/utils/to_string.cpp"],
 [("SerializerToPlantuml::visit", "src/infra/serializers/serializer_to_plantuml.cpp"), ("SerializerToPrettyprint::visit", "src/infra/serializers/serializer_to_prettyprint.cpp"), ("to_string", "src/infra/utils/to_string.cpp")])
na("N01", "The graphical interface shows and edits the board faithfully",
 "What the windows show (structure, mesh, processing flow) is the current state of the board, and what is edited there is what the mesher uses.",
 ["inputs", "histories"], "all boards and sequences of user actions",
 "Tests run no GUI.", ["src/ui/qt"], [("ui::qt", "src/ui/qt")],
 "The code is driven by Qt (signals, scene graph, generated moc code); Qt is neither installed nor encodable here, so this code cannot even be compiled to the intermediate representation.")
na("N02", "Numbers in texts and files are the numbers meant",
 "Every number read from or written to a text or file is converted without loss beyond its stated digits.",
 ["inputs"], "all doubles and digit strings", "Tests convert a few.",
 ["src/infra/parsers/parser_from_csx.cpp", "src/infra/serializers/serializer_to_csx.cpp"], [("from_chars, to_chars, strtod", "libstdc++ / libc / pugixml")],
 "Digit conversion is done by the binary libraries libstdc++, libc and pugixml (big-integer loops); they are not part of the repository and are replaced by exact placeholders in the encoding. Which conversion is chosen is decided in C25 and C26.")
na("N03", "Angles between edges are the exact geometric angles",
 "The angle kept for two edges is the true angle between them, for edges of any direction.",
 ["inputs"], "all pairs of directions", "Tests check a few angles.",
 ["src/domain/geometrics/angle.cpp", "src/domain/geometrics/segment.cpp"], [("Angle, atan2", "src/domain/geometrics/angle.cpp")],
 "atan2, cos and sin have no decidable SMT encoding; operands are pinned to concrete values, which would be sampling. C09 decides where angles are and which are kept for the directions it enumerates.")
prop("C29", "Messages and progress reach whoever listens, once and as they are",
 "A message reaches once the sink it is for, or every sink if that one is unknown or none is named, and the answer is that of the sink asked, else that of the interactive one, which is always the last one chosen. Each listener sees every progress bar with its limit, message and ticks, and its completion once, after all ticks. While the steps run, progress never goes back nor beyond the limit.",
 ["inputs", "histories"], "all programs of a few operations on three sinks; bars with any values; the steps on boards of several kinds at any place",
 "No test listens to messages or progress.",
 ["src/utils/logger.cpp", "src/utils/progress.cpp", D + "board.cpp", D + "conflict_manager.cpp", D + "meshline_policy_manager.cpp"],
 [("Logger::log, set_as_the_interactive, register_sink", "src/utils/logger.cpp"), ("Progress::Bar", "src/utils/progress.cpp"), ("progress of the steps", D + "board.cpp")])
prop("C30", "Everything on a board knows what it comes from and what comes of it",
 "After any steps, undos and redos, links on the board go both ways: edges, polygons, policies and intervals list exactly the conflicts they are part of, each once; each policy names the one edge, angle or conflict it comes from, which names it. A conflict is solved exactly when it names its solution. Intervals and mesh lines hang on policies and intervals of the same board and axis, in use; nothing refers to what is not on the board.",
 ["inputs", "histories"], "boards of several kinds in any plane, one polygon at any place, after each step and after programs of undo, redo and steps",
 "Tests check single links of literal boards, hardly ever after undo; a link that dangles shows only for some relations and histories.",
 [D + "board.cpp", D + "conflict_manager.cpp", D + "meshline_policy_manager.cpp", D + "conflicts/conflict_colinear_edges.cpp", D + "conflicts/conflict_edge_in_polygon.cpp", D + "conflicts/conflict_too_close_meshline_policies.cpp", U + "state_management.cpp"],
 [("ConflictManager::add_*", D + "conflict_manager.cpp"), ("auto_solve", D + "conflicts/"), ("detect_intervals, mesh", D + "meshline_policy_manager.cpp"), ("detect_individual_edges", D + "board.cpp")])
prop("C31", "Edits made between steps are honoured by the steps that follow",
 "Going back before the step an edit concerns, editing and running again gives: with parameters, the mesh of a board made with them, undone and redone as a whole; with an edge hidden or reversed, no policy from it or one turned round; with an angle, its policies in use exactly where asked; with a policy, lines of its kind at its shares of a distance never above the one asked, or none; with an interval or a diagonal zone, lines within the dmax, smoothness, lines and least angle asked of it.",
 ["inputs", "histories"], "boards at any place, any one object edited in any way, or two in a row",
 "Tests set states by hand before one step; none edits a meshed board and runs it again.",
 [D + "board.cpp", D + "conflicts/conflict_diagonal_or_circular_zone.cpp", D + "conflicts/conflict_edge_in_polygon.cpp", D + "meshline_policy_manager.cpp", D + "mesh/interval.cpp", "src/app/openemsh.cpp", U + "state_management.cpp"],
 [("OpenEMSH::go_before, run_from_step", "src/app/openemsh.cpp"), ("solve_angles, solve_intervals", D + "conflicts/conflict_diagonal_or_circular_zone.cpp"), ("auto_solve", D + "conflicts/"), ("detect_individual_edges", D + "board.cpp"), ("detect_intervals, mesh", D + "meshline_policy_manager.cpp")])

A = "api/python/openemsh.py"
prop("C32", "The Python interface runs the programs with exactly what it is given",
 "To mesh, the geometry is written to the file named, the mesher is run once on that file with exactly the options given, in their order (else the default ones, whatever ran before), and its result is read back unless it fails, which is reported. The viewer is run on the file written, with the options asked for, and the file is read back only when editing. A simulation folder exists afterwards, emptied if asked for, otherwise as it was.",
 ["inputs", "fault_sequences"], "any file name and options of a few characters, any outcome of the program, any state of the folder",
 "There are no tests of the Python module.",
 [A], [("run_openemsh", A), ("run_appcsxcad", A), ("ensure_sim_path", A)], python=True)
