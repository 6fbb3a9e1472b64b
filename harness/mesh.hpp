// Input makers shared by the meshing harnesses.
#pragma once
#include "common.hpp"
#include "domain/board.hpp"
#include "domain/conflict_manager.hpp"
#include "domain/global.hpp"
#include "domain/material.hpp"
#include "domain/meshline_policy_manager.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "utils/state_management.hpp"
using MP = domain::MeshlinePolicy;
inline bool near(double a, double b, double tol = 1e-6) { double d = a - b; return d < tol && d > -tol; }
inline bool at_most(double a, double b, double tol = 1e-6) { return a - b < tol; }
inline domain::Params params(double dmax, double smoothness, size_t lmin, double proximity = 1) {
	domain::Params p; p.dmax = dmax; p.smoothness = smoothness; p.lmin = lmin; p.proximity_limit = proximity; return p;
}
