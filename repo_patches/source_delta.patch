From 6aad1782242e651a9397175d9c0a9495067e5f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:20 +0000
Subject: [PATCH 01/19] fix: mesh intervals only once the distances of shared
 meshline policies are settled

A second solve of an interval could still shrink the distance of a policy it
shares with an interval meshed before, whose lines then did not respect the
thirds/halfs rule of the final distance.
---
 src/domain/meshline_policy_manager.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index d97b8b9..94cabc5 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -205,11 +205,26 @@ void MeshlinePolicyManager::mesh(Axis const axis) {
 	for(auto interval : dimension_view)
 		interval->auto_solve_d();
 
+	// Solving an Interval can shrink the d of a MeshlinePolicy it shares with an
+	// already solved one, so do it again until both sides of each agree.
+	for(bool is_stable = false; !is_stable;) {
+		is_stable = true;
+		for(auto interval : dimension_view) {
+			auto const* before = interval->get_current_state().before.meshline_policy;
+			auto const* after = interval->get_current_state().after.meshline_policy;
+			double const d_before = before->get_current_state().d;
+			double const d_after = after->get_current_state().d;
+			interval->auto_solve_d();
+			if(d_before - before->get_current_state().d > equality_tolerance
+			|| d_after - after->get_current_state().d > equality_tolerance)
+				is_stable = false;
+		}
+	}
+
 	size_t new_size = state.meshlines[axis].size();
 	vector<vector<shared_ptr<Meshline>>> interval_meshlines;
 
 	for(auto* interval : dimension_view) {
-		interval->auto_solve_d();
 		interval->auto_solve_smoothness();
 		interval_meshlines.emplace_back(interval->mesh());
 
-- 
2.43.0


From f5a9896116569807c897dc51fce13cef4c74107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:45 +0000
Subject: [PATCH 02/19] fix: keep one of two identical edges of polygons of the
 same priority

Both edges lay on the other polygon, so each was dismissed in favour of the
other and the shared boundary was left without any meshline policy.
---
 src/domain/board.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index b018913..9ff49b5 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -318,11 +318,14 @@ void Board::detect_edges_in_polygons(Plane const plane) {
 		"["s + to_string(plane) + "] Detecting EDGES_IN_POLYGON conflicts ");
 
 	for(auto const& poly_a : get_current_state().polygons[plane]) {
+		bool is_a_first = false;
 		for(auto const& poly_b : get_current_state().polygons[plane]) {
 			++k;
 
-			if(poly_b == poly_a)
+			if(poly_b == poly_a) {
+				is_a_first = true;
 				continue;
+			}
 
 			// Same priority : no reason to dismiss one.
 			if(poly_a->priority > poly_b->priority)
@@ -365,6 +368,14 @@ void Board::detect_edges_in_polygons(Plane const plane) {
 							intersections.push_back(r->p1());
 							if(r->axis == Segment::Axis::POINT)
 								break;
+							// Identical edges of equal polygons must not dismiss each other : keep the first.
+							if(poly_a->priority == poly_b->priority
+							&& edge_a->normal != Normal::NONE
+							&& edge_a->normal == edge_b->normal
+							&& r.value() == *edge_a
+							&& r.value() == *edge_b
+							&& is_a_first)
+								break;
 							ranges.emplace_back(r.value(), relation::PolygonPoint::ON);
 							++found;
 							conflict_manager->add_edge_in_polygon(edge_a.get(), poly_b.get(), r.value(), edge_b.get());
-- 
2.43.0


From 937c09d3fe2d4c60f88e0438e1987c704511137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:47 +0000
Subject: [PATCH 03/19] fix: decide whether an edge is hidden regardless of the
 order of its overlaps

An overlap with an edge of the same normal stopped the merge of the following
ones, so an edge inside a polygon stayed eligible to mesh depending on the order
of the polygons. Such an overlap does not hide the edge nor the other overlaps.
---
 .../conflicts/conflict_edge_in_polygon.cpp    | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/domain/conflicts/conflict_edge_in_polygon.cpp b/src/domain/conflicts/conflict_edge_in_polygon.cpp
index 7ddfa0f..606ed81 100644
--- a/src/domain/conflicts/conflict_edge_in_polygon.cpp
+++ b/src/domain/conflicts/conflict_edge_in_polygon.cpp
@@ -81,22 +81,29 @@ void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_mana
 	auto [t, state] = make_next_state();
 
 	sort_overlaps_by_p0_by_vector_orientation(state.overlaps, edge->vec);
-	Range merged_range(get<RANGE>(state.overlaps.front()));
+	optional<Range> merged_range;
 
 	for(Overlap const& overlap : state.overlaps) {
-		if(!get<EDGE>(overlap).has_value()
-		|| get<EDGE>(overlap).value()->normal != edge->normal) {
-			if(optional<Range> r = merge(get<RANGE>(overlap), merged_range); r)
-				merged_range = r.value();
-			else
-				break;
-		} else {
+		if(get<RANGE>(overlap) == *edge) {
+			merged_range = get<RANGE>(overlap);
 			break;
 		}
+
+		// The edge remains visible where it overlaps an edge with the same normal.
+		if(get<EDGE>(overlap).has_value()
+		&& get<EDGE>(overlap).value()->normal == edge->normal)
+			continue;
+
+		if(!merged_range)
+			merged_range = get<RANGE>(overlap);
+		else if(optional<Range> r = merge(get<RANGE>(overlap), merged_range.value()); r)
+			merged_range = r;
+		else
+			break;
 	}
 
 	auto state_e = edge->get_current_state();
-	state_e.to_mesh = !(merged_range == *edge);
+	state_e.to_mesh = !(merged_range && merged_range.value() == *edge);
 	state_e.conflict = this;
 	state.solution = edge;
 	state.is_solved = true;
-- 
2.43.0


From 4c3cfb8354de04adfdd883e7b42dfb5142b2b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:20 +0000
Subject: [PATCH 04/19] fix: make every meshline policy follow undo and redo

A policy added without a timepoint had a null initial one, so the caretaker did
not take care of it: fixed meshlines merged with a neighbour stayed disabled, or
kept a shrunk distance, once the merge was undone. Besides, the timepoint given
to fixed policies landed in the is_enabled parameter.
---
 src/domain/board.cpp                   | 4 ++--
 src/domain/meshline_policy_manager.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index 9ff49b5..1a02050 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -79,7 +79,7 @@ void Board::Builder::set_background_material(shared_ptr<Material> background) {
 // TODO should be in meshline manager?
 //******************************************************************************
 void Board::Builder::add_fixed_meshline_policy(Axis const axis, Coord const coord) {
-	fixed_meshline_policy_creators[axis].emplace_back([=](Board const* board, Timepoint* t) {
+	fixed_meshline_policy_creators[axis].emplace_back([=](Board const* board, Timepoint* /*t*/) {
 		if(!contains_that(board->line_policy_manager->get_current_state().line_policies[axis],
 			[&coord](shared_ptr<MeshlinePolicy> const& policy) {
 				if(policy->get_current_state().policy == MeshlinePolicy::Policy::ONELINE
@@ -94,7 +94,7 @@ void Board::Builder::add_fixed_meshline_policy(Axis const axis, Coord const coor
 					MeshlinePolicy::Policy::ONELINE,
 					MeshlinePolicy::Normal::NONE,
 					coord,
-					t);
+					true); // A manager state per timepoint, so not the common t.
 	});
 }
 
diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index 94cabc5..a0efd14 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -60,13 +60,17 @@ MeshlinePolicy* MeshlinePolicyManager::add_meshline_policy(
 	|| (policy != MeshlinePolicy::Policy::THIRDS && normal != MeshlinePolicy::Normal::NONE))
 		return nullptr;
 
+	// A MeshlinePolicy without timepoint would not follow undo, redo & co.
+	if(!t)
+		t = next_timepoint();
+
 	auto state = get_current_state();
 
 	auto const& line_policy = state.line_policies[axis].emplace_back(make_shared<MeshlinePolicy>(
 		axis, policy, normal, global_params, coord, t, origins, is_enabled));
 	get_caretaker().take_care_of(line_policy);
 
-	set_given_or_next_state(state, t);
+	set_state(t, state);
 	return line_policy.get();
 }
 
-- 
2.43.0


From 9c63245ade54a1f47e0fc6210c052cb97ed86608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:01 +0000
Subject: [PATCH 05/19] fix: detect angles where an axis-aligned edge crosses a
 diagonal one

The bounding of an axis-aligned edge has no thickness, so it never strictly
overlaps anything and these crossings were always dismissed.
---
 src/domain/board.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index 1a02050..4b3581a 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -289,7 +289,7 @@ void Board::detect_diagonal_angles(Plane plane) {
 					&& edge_b->axis != Segment::Axis::DIAGONAL)
 						continue;
 
-					if(!does_overlap_strict(bounding(*edge_a), bounding(*edge_b)))
+					if(!does_overlap(bounding(*edge_a), bounding(*edge_b)))
 						continue;
 
 					relation::SegmentSegment rel = edge_a->relation_to(*edge_b);
-- 
2.43.0


From 6c92502d753ed3524e188ac0026253690c2e265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 06/19] fix: make angles and diagonal zones follow undo and
 redo

The caretaker did not take care of them: an undone zone kept the intervals it was
linked to, and solving it again after these got garbage collected used dangling
pointers.
---
 src/domain/board.cpp            | 6 ++++--
 src/domain/conflict_manager.cpp | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index 4b3581a..ece7a89 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -267,7 +267,8 @@ void Board::detect_diagonal_angles(Plane plane) {
 			if(polygon->edges[p]->axis == Segment::Axis::DIAGONAL
 			|| polygon->edges[i]->axis == Segment::Axis::DIAGONAL) {
 				++found;
-				state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t));
+				auto const& angle = state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t));
+				get_caretaker().take_care_of(angle);
 			}
 			p = i;
 		}
@@ -296,7 +297,8 @@ void Board::detect_diagonal_angles(Plane plane) {
 					if(rel == relation::SegmentSegment::CROSSING) {
 						if(optional<Point> p = intersection(*edge_a, *edge_b)) {
 							++found;
-							state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t));
+							auto const& angle = state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t));
+							get_caretaker().take_care_of(angle);
 						}
 					}
 				}
diff --git a/src/domain/conflict_manager.cpp b/src/domain/conflict_manager.cpp
index 3750d24..a6610bf 100644
--- a/src/domain/conflict_manager.cpp
+++ b/src/domain/conflict_manager.cpp
@@ -231,6 +231,7 @@ void ConflictManager::add_diagonal_or_circular_zone(Axis axis, vector<Angle*> co
 
 	auto const& conflict = state.all_diagonal_or_circular_zone[axis].emplace_back(
 		make_shared<ConflictDiagonalOrCircularZone>(axis, sorted_angles, global_params, t));
+	get_caretaker().take_care_of(conflict);
 
 	set_state(t, state);
 }
-- 
2.43.0


From 5e81278a2f049909c0e234fe8d67e1cdb4bad419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:45 +0000
Subject: [PATCH 07/19] fix: make the board follow undo and redo

The caretaker did not take care of it, so angles it found stayed there once
undone, and were found again in addition by the next run.
---
 src/domain/board.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index ece7a89..4d1146a 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -63,12 +63,14 @@ void sort_points_by_vector_orientation(vector<Point>& points, Point const& vecto
 
 //******************************************************************************
 shared_ptr<Board> Board::Builder::build(Params&& params) {
-	return make_shared<Board>(
+	auto board = make_shared<Board>(
 		std::move(polygons),
 		std::move(fixed_meshline_policy_creators),
 		std::move(material),
 		std::move(params),
 		Caretaker::singleton().get_history_root());
+	Caretaker::singleton().take_care_of(board);
+	return board;
 }
 
 //******************************************************************************
-- 
2.43.0


From 24858f9bddca3d1bf149f823d42c90e7f0f95af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:38 +0000
Subject: [PATCH 08/19] fix: give every step its own timepoint

A step that had nothing to do shared its timepoint with the next one, whose
annotation was then dropped: running steps one by one got stuck on it, and going
before the next one to run it again silently failed, piling up its results.
---
 src/app/openemsh.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index eedcea8..8dc149a 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -160,8 +160,13 @@ expected<void, string> OpenEMSH::write() const {
 void OpenEMSH::run(std::set<Step> const& steps) const {
 	auto const handle = [&]<InvocableR<void> F>(Step step, F const& func) {
 		if(steps.contains(step)) {
-			Caretaker::singleton().annotate_current_timepoint(make_unique<Annotation>(step));
+			auto& c = Caretaker::singleton();
+			auto const* t = c.get_current_timepoint();
+			c.annotate_current_timepoint(make_unique<Annotation>(step));
 			func();
+			// A step that had nothing to do must not share its timepoint with the next.
+			if(c.get_current_timepoint() == t)
+				c.make_next_timepoint();
 		}
 	};
 
-- 
2.43.0


From 7f7288d3efc152260aae0277d9d31b2f4e603c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 09/19] fix: leave LinPoly and Polygon primitives out of planes
 that are not processed

---
 src/infra/parsers/parser_from_csx.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 8099fb2..d207900 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -101,6 +101,7 @@ public:
 	void parse_primitive_curve(pugi::xml_node const& node, shared_ptr<Material> const& material, std::string name);
 
 private:
+	bool does_process(Plane plane) const;
 	void warn_unsupported_property(string const& property_type, string const& property_name);
 	void warn_unsupported_primitive(string const& primitive_type, string const& primitive_name);
 };
@@ -110,6 +111,16 @@ ParserFromCsx::Pimpl::Pimpl(ParserFromCsx::Params const& params)
 : params(params)
 {}
 
+//******************************************************************************
+bool ParserFromCsx::Pimpl::does_process(Plane const plane) const {
+	switch(plane) {
+	case YZ: return params.with_yz;
+	case ZX: return params.with_zx;
+	case XY: return params.with_xy;
+	default: ::unreachable();
+	}
+}
+
 //******************************************************************************
 void ParserFromCsx::Pimpl::warn_unsupported_property(string const& primitive_type, string const& primitive_name) {
 	warning_unsupported_properties_types.emplace(primitive_type);
@@ -356,7 +367,8 @@ void ParserFromCsx::Pimpl::parse_primitive_linpoly(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
+	if(does_process(plane.value()))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
 	if(length == 0) {
 //		board.add_fixed_meshline_policy(normal.value(), elevation);
 //		switch(plane.value()) {
@@ -437,7 +449,8 @@ void ParserFromCsx::Pimpl::parse_primitive_polygon(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
+	if(does_process(plane.value()))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
 	board.add_fixed_meshline_policy(normal.value(), elevation);
 }
 
-- 
2.43.0


From b7b00fa59088d80a18d2d3fca110f155a591454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 10/19] fix: make the Z placement of a Curve its whole extent

---
 src/infra/parsers/parser_from_csx.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index d207900..0dea47b 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -581,7 +581,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x > b.x; }).x
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -599,7 +599,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y > b.y; }).y
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -617,7 +617,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z > b.z; }).z
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
-- 
2.43.0


From 260857958e0f1780956de8600b6da466e5d7ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 11/19] fix: give the side views of a Cylinder its whole radius

---
 src/infra/parsers/parser_from_csx.cpp | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 0dea47b..9b35a90 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -495,45 +495,45 @@ void ParserFromCsx::Pimpl::parse_primitive_cylinder(pugi::xml_node const& node,
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z - radius/2, p1.x },
-				{ p2.z + radius/2, p2.x });
+				{ p1.y - radius, p2.y + radius },
+				{ p1.z - radius, p1.x },
+				{ p2.z + radius, p2.x });
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x, p1.y - radius/2 },
-				{ p2.x, p2.y + radius/2 });
+				{ p1.z - radius, p2.z + radius },
+				{ p1.x, p1.y - radius },
+				{ p2.x, p2.y + radius });
 	} else if(p1.z == p2.z && p1.x == p2.x) {
 		if(params.with_zx)
 			board.add_polygon(ZX, material, name, priority, { p1.y, p2.y }, circle_to_points({ p1.z, p1.x }, radius));
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x - radius/2, p1.y },
-				{ p2.x + radius/2, p2.y });
+				{ p1.z - radius, p2.z + radius },
+				{ p1.x - radius, p1.y },
+				{ p2.x + radius, p2.y });
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y, p1.z - radius/2 },
-				{ p2.y, p2.z + radius/2 });
+				{ p1.x - radius, p2.x + radius },
+				{ p1.y, p1.z - radius },
+				{ p2.y, p2.z + radius });
 	} else if(p1.x == p2.x && p1.y == p2.y) {
 		if(params.with_xy)
 			board.add_polygon(XY, material, name, priority, { p1.z, p2.z }, circle_to_points({ p1.x, p1.y }, radius));
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y - radius/2, p1.z },
-				{ p2.y + radius/2, p2.z });
+				{ p1.x - radius, p2.x + radius },
+				{ p1.y - radius, p1.z },
+				{ p2.y + radius, p2.z });
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z, p1.x - radius/2 },
-				{ p2.z, p2.x + radius/2 });
+				{ p1.y - radius, p2.y + radius },
+				{ p1.z, p1.x - radius },
+				{ p2.z, p2.x + radius });
 	} else {
 		warn_unsupported_primitive(format("{} (with diagonal axis)", node.name()), name);
 	}
-- 
2.43.0


From b979a93dfb5a1830b225e462bae629ca629903c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:12 +0000
Subject: [PATCH 12/19] fix: skip primitives that have no vertex

---
 src/infra/parsers/parser_from_csx.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 9b35a90..de3826f 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -365,6 +365,9 @@ void ParserFromCsx::Pimpl::parse_primitive_linpoly(pugi::xml_node const& node, s
 			vertex.attribute("X1").as_double(),
 			vertex.attribute("X2").as_double()));
 
+	if(points.empty())
+		return;
+
 	Bounding2D bounding(detect_bounding(points));
 
 	if(does_process(plane.value()))
@@ -447,6 +450,9 @@ void ParserFromCsx::Pimpl::parse_primitive_polygon(pugi::xml_node const& node, s
 			vertex.attribute("X1").as_double(),
 			vertex.attribute("X2").as_double()));
 
+	if(points.empty())
+		return;
+
 	Bounding2D bounding(detect_bounding(points));
 
 	if(does_process(plane.value()))
@@ -576,6 +582,9 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 			vertex.attribute("Z").as_double());
 	}
 
+	if(vertices.empty())
+		return;
+
 	// TODO support onepoint polygon and open polygons (not to double points, edges & angles)
 	if(params.with_yz) {
 		// TODO Z placement here is the bounding box
-- 
2.43.0


From 52ff2af2dd740ad5da1ab65b9d740d2a0cea9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:12 +0000
Subject: [PATCH 13/19] fix: scale fixed meshlines by fractional DeltaUnit too

---
 src/infra/parsers/parser_from_csx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index de3826f..729cc73 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -142,7 +142,7 @@ expected<void, string> ParserFromCsx::Pimpl::parse_oemsh(pugi::xml_node const& n
 	if(auto a = global_params.attribute("lmin"); a) domain_params.lmin = a.as_uint();
 
 	pugi::xml_node fixed_meshlines = node.child("FixedMeshlines");
-	size_t delta_unit = fixed_meshlines.attribute("DeltaUnit").as_uint(1);
+	double delta_unit = fixed_meshlines.attribute("DeltaUnit").as_double(1);
 	AxisSpace<string_view> lines = {
 		fixed_meshlines.child_value("XLines"),
 		fixed_meshlines.child_value("YLines"),
-- 
2.43.0


From 380ceeae236b95a350f3fcfad06ef6c4450cf99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:38 +0000
Subject: [PATCH 14/19] fix: write mesh lines with all their digits

---
 src/infra/serializers/serializer_to_csx.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index aee005f..ffc080b 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -4,6 +4,9 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <array>
+#include <charconv>
+
 #include <pugixml.hpp>
 
 #include "domain/mesh/meshline.hpp"
@@ -72,6 +75,13 @@ pugi::xml_node find_or_append_child(pugi::xml_node& node, char const* child) {
 		return c;
 }
 
+/// Shortest text that reads back as the same value.
+///*****************************************************************************
+string to_xml_text(double const value) noexcept {
+	array<char, 32> text;
+	return string(text.begin(), to_chars(text.begin(), text.end(), value).ptr);
+}
+
 //******************************************************************************
 void SerializerToCsx::visit(Board& board) {
 	pugi::xml_document doc;
@@ -96,10 +106,10 @@ void SerializerToCsx::visit(Board& board) {
 		string out;
 		if(params.with_meshlines)
 			for(auto const& meshline : board.get_meshlines(axis))
-				out += to_string(meshline->coord.value()) + ",";
+				out += to_xml_text(meshline->coord.value()) + ",";
 		if(params.with_meshline_policies)
 			for(auto const& meshline : board.get_meshline_policies_meshlines(axis))
-				out += to_string(meshline->coord.value()) + ",";
+				out += to_xml_text(meshline->coord.value()) + ",";
 
 		if(!out.empty())
 			out.pop_back();
-- 
2.43.0


From 1be6b14e3d58f50b2b948173e123c76639805153 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:49:03 +0000
Subject: [PATCH 15/19] fix: solve the angles of a diagonal zone with its own
 minimal angle

---
 src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp b/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
index 07a8902..b84c890 100644
--- a/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
+++ b/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
@@ -74,7 +74,7 @@ void ConflictDiagonalOrCircularZone::solve_angles() {
 		if(auto view_axis = transpose(angle->plane, axis)
 		; view_axis.has_value()) {
 			auto state_a = angle->get_current_state();
-			state_a.to_mesh[view_axis.value()] = angle->angle >= global_params->get_current_state().consecutive_diagonal_minimal_angle;
+			state_a.to_mesh[view_axis.value()] = angle->angle >= state.minimal_angle;
 			angle->set_state(t, state_a);
 		}
 	}
-- 
2.43.0


From ec79e1312c17e93fff75ec9c377d5d54129081e4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:49:03 +0000
Subject: [PATCH 16/19] fix: start diagonal zones with the lmin of diagonals

---
 src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp b/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
index b84c890..c711073 100644
--- a/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
+++ b/src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp
@@ -20,7 +20,7 @@ using namespace std;
 ConflictDiagonalOrCircularZone::ConflictDiagonalOrCircularZone(Axis axis, vector<Angle*> const& angles, GlobalParams* global_params, Timepoint* t)
 : Originator(t, {
 	.dmax = global_params->get_current_state().diagonal_dmax,
-	.lmin = global_params->get_current_state().lmin,
+	.lmin = global_params->get_current_state().diagonal_lmin,
 	.minimal_angle = global_params->get_current_state().consecutive_diagonal_minimal_angle,
 	.angles = angles })
 , Conflict(Kind::DIAGONAL_OR_CIRCULAR_ZONE)
-- 
2.43.0


From dbb696c9e52869bf0311a51a59d3f012d3ae0eb0 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:49:03 +0000
Subject: [PATCH 17/19] fix: keep hidden an edge that is only in part in
 polygons

---
 src/domain/conflicts/conflict_edge_in_polygon.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/domain/conflicts/conflict_edge_in_polygon.cpp b/src/domain/conflicts/conflict_edge_in_polygon.cpp
index 606ed81..d40e2c9 100644
--- a/src/domain/conflicts/conflict_edge_in_polygon.cpp
+++ b/src/domain/conflicts/conflict_edge_in_polygon.cpp
@@ -103,7 +103,8 @@ void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_mana
 	}
 
 	auto state_e = edge->get_current_state();
-	state_e.to_mesh = !(merged_range && merged_range.value() == *edge);
+	if(merged_range && merged_range.value() == *edge)
+		state_e.to_mesh = false;
 	state_e.conflict = this;
 	state.solution = edge;
 	state.is_solved = true;
-- 
2.43.0


From eff108e100625c5308ba3bebd124ae8e8ec6d53f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:49:25 +0000
Subject: [PATCH 18/19] fix: refuse parameters that would make the mesher loop
 forever

---
 src/infra/parsers/parser_from_csx.cpp | 6 ++++++
 src/ui/cli/cli.cpp                    | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 729cc73..85f255a 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -141,6 +141,12 @@ expected<void, string> ParserFromCsx::Pimpl::parse_oemsh(pugi::xml_node const& n
 	if(auto a = global_params.attribute("dmax"); a) domain_params.dmax = a.as_double();
 	if(auto a = global_params.attribute("lmin"); a) domain_params.lmin = a.as_uint();
 
+	// The mesher would never end.
+	if(!(domain_params.proximity_limit >= 0)
+	|| !(domain_params.smoothness >= 1)
+	|| !(domain_params.dmax > 0))
+		return unexpected("Invalid GlobalParams");
+
 	pugi::xml_node fixed_meshlines = node.child("FixedMeshlines");
 	double delta_unit = fixed_meshlines.attribute("DeltaUnit").as_double(1);
 	AxisSpace<string_view> lines = {
diff --git a/src/ui/cli/cli.cpp b/src/ui/cli/cli.cpp
index ca0afeb..2d30660 100644
--- a/src/ui/cli/cli.cpp
+++ b/src/ui/cli/cli.cpp
@@ -168,12 +168,12 @@ app::OpenEMSH::Params cli(int const argc, char* argv[]) {
 	app.add_option_function<decltype(domain::Params::proximity_limit)>("--proximity-limit",
 		make_overrider<&domain::Params::proximity_limit>(domain_overrides),
 		"Distance under which two adjacent lines trigger a conflict."
-	)->group("Mesher options");
+	)->group("Mesher options")->check(CLI::NonNegativeNumber);
 
 	app.add_option_function<decltype(domain::Params::dmax)>("--dmax",
 		make_overrider<&domain::Params::dmax>(domain_overrides),
 		"Maximum distance between two adjacent lines."
-	)->group("Mesher options"); // TODO is in fact mres / sres / ares
+	)->group("Mesher options")->check(CLI::PositiveNumber); // TODO is in fact mres / sres / ares
 
 	app.add_option_function<decltype(domain::Params::lmin)>("--lmin",
 		make_overrider<&domain::Params::lmin>(domain_overrides),
@@ -188,7 +188,7 @@ app::OpenEMSH::Params cli(int const argc, char* argv[]) {
 	app.add_option_function<decltype(domain::Params::diagonal_dmax)>("--diag-dmax",
 		make_overrider<&domain::Params::diagonal_dmax>(domain_overrides),
 		"Maximum distance between two adjacent lines in diagonal zones."
-	)->group("Mesher options");
+	)->group("Mesher options")->check(CLI::PositiveNumber);
 
 	app.add_option_function<decltype(domain::Params::diagonal_lmin)>("--diag-lmin",
 		make_overrider<&domain::Params::diagonal_lmin>(domain_overrides),
-- 
2.43.0


From e2d7dfb560d7458eaed2bb36bfb21d7b674c88b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:09 +0000
Subject: [PATCH 19/19] fix: no line for what rounding leaves of an interval

A sum of distances that should reach the middle of an interval but stays short
of it by a rounding error got one more line, 1e-14 away from the middle.
---
 src/domain/mesh/interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/mesh/interval.cpp b/src/domain/mesh/interval.cpp
index 70db3ab..0be3061 100644
--- a/src/domain/mesh/interval.cpp
+++ b/src/domain/mesh/interval.cpp
@@ -138,7 +138,7 @@ vector<Coord> find_ls(double d, double smoothness, double dmax, Coord s) {
 	double current_d = min(d, dmax);
 	double current_s = 0;
 	vector<Coord> ls;
-	while(current_s < s) {
+	while(current_s + equality_tolerance < s) { // What rounding leaves is not a gap.
 		if(current_d < dmax) {
 			current_d *= smoothness;
 			if(current_d > dmax)
-- 
2.43.0

