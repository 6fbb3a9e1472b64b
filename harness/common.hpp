// Oracles and input makers shared by the harnesses. Everything here is exact
// integer arithmetic on the grid, independent of the code under test.
#pragma once
#include <algorithm>
#include "sym.h"
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
#include "domain/geometrics/bounding.hpp"
#include "domain/geometrics/coord.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/normal.hpp"
#include "domain/geometrics/point.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/geometrics/range.hpp"
#include "domain/geometrics/relation.hpp"
#include "domain/geometrics/segment.hpp"
#include "domain/geometrics/space.hpp"

struct IP { int64_t x, y; };
inline IP ip(char const* nx, char const* ny, int64_t lo, int64_t hi) { int64_t x = sym_int(nx, lo, hi); int64_t y = sym_int(ny, lo, hi); return { x, y }; }
inline int64_t imin(int64_t a, int64_t b) { return a < b ? a : b; }
inline int64_t imax(int64_t a, int64_t b) { return a > b ? a : b; }
inline int64_t isgn(int64_t a) { return a < 0 ? -1 : a > 0 ? 1 : 0; }
// twice the signed area of the triangle a b c
inline int64_t cross(IP a, IP b, IP c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
inline bool in_box(IP a, IP b, IP p) {
	return p.x >= imin(a.x, b.x) && p.x <= imax(a.x, b.x) && p.y >= imin(a.y, b.y) && p.y <= imax(a.y, b.y);
}
// is p on the closed segment a b
inline bool on_segment(IP a, IP b, IP p) { return cross(a, b, p) == 0 && in_box(a, b, p); }
// do the closed segments a b and c d share a point
inline bool touch(IP a, IP b, IP c, IP d) {
	int64_t r1 = isgn(cross(a, b, c)), r2 = isgn(cross(a, b, d)), r3 = isgn(cross(c, d, a)), r4 = isgn(cross(c, d, b));
	if(r1 * r2 < 0 && r3 * r4 < 0) return true;
	return on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b);
}
inline domain::Point dp(IP p, double scale = 1) { return domain::Point((double) p.x * scale, (double) p.y * scale); }
// even-odd rule with half-open edges; p must not be on the boundary
inline bool even_odd(std::vector<IP> const& v, IP p) {
	bool in = false;
	for(size_t i = 0, j = v.size() - 1; i < v.size(); j = i++) {
		IP a = v[j], b = v[i];
		if((a.y > p.y) != (b.y > p.y)) {
			int64_t s = cross(a, b, p);
			if((b.y > a.y) ? s > 0 : s < 0) in = !in;
		}
	}
	return in;
}
inline std::unique_ptr<domain::Polygon> make_polygon(std::vector<IP> const& v, double scale = 1, domain::Plane plane = domain::XY) {
	std::vector<std::unique_ptr<domain::Point const>> pts;
	for(auto const& p : v) pts.push_back(std::make_unique<domain::Point const>((double) p.x * scale, (double) p.y * scale));
	return std::make_unique<domain::Polygon>(plane, std::shared_ptr<domain::Material>(), "p", 1, domain::Polygon::RangeZ(0, 1), std::move(pts), nullptr);
}
