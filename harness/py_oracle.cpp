// The library called from C++, for comparison with the same calls made through Python (C22).
// Flat arrays only, so that ctypes can call it.
#include "algo/hybrid_a_star.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_constant_steer.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_se2.h"
#include "state_space/state_space_se2.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
using namespace Planner;

namespace {
	struct Handle {
		Ref<StateSpaceSE2> space;
		Ref<ObstacleListOccupancyMap> map;
		Ref<StateValidatorOccupancyMap> validator;
		std::vector<Ref<Obstacle>> obstacles;
		Ref<GVD> gvd;
		Ref<HybridAStar> planner;
		Ref<PathSE2Base> path;
		PathNonHolonomicSE2Base* non = nullptr;
	};

	Ref<Shape> MakeShape(int kind, double a, double b, int n, const double* v)
	{
		switch (kind) {
		case 0: return makeRef<RectangleShape>(a, b);
		case 1: return makeRef<RegularPolygonShape>(a, n);
		case 2: return makeRef<CircleShape>(a, n);
		case 4: {
			// n shapes of five numbers each: kind (0 to 2), a, b, n, unused
			auto c = makeRef<CompositeShape>();
			for (int i = 0; i < n; ++i, v += 5)
				c->Add(MakeShape((int)v[0], v[1], v[2], (int)v[3], nullptr));
			return c;
		}
		default: {
			std::vector<Point2d> p;
			for (int i = 0; i < n; ++i)
				p.push_back({ v[2 * i], v[2 * i + 1] });
			return makeRef<PolygonShape>(p);
		}
		}
	}
}

#define API extern "C" __attribute__((visibility("default")))

API Handle* or_new() { PP_INIT; return new Handle; }
API void or_delete(Handle* h) { delete h; }

API void or_world(Handle* h, double res, double hx, double hy, double x0, double y0)
{
	h->space = makeRef<StateSpaceSE2>(Pose2d(-hx, -hy, -M_PI), Pose2d(hx, hy, M_PI));
	h->map = makeRef<ObstacleListOccupancyMap>((float)res);
	h->map->SetPosition({ x0, y0 });
	h->validator = makeRef<StateValidatorOccupancyMap>(h->space, h->map);
}
API int or_rows(Handle* h) { return h->map->Rows(); }
API int or_cols(Handle* h) { return h->map->Columns(); }
API int or_add(Handle* h, int kind, double a, double b, int n, const double* v, double x, double y, double t)
{
	auto o = makeRef<Obstacle>();
	o->SetShape(MakeShape(kind, a, b, n, v));
	o->SetPose(Pose2d(x, y, t));
	h->obstacles.push_back(o);
	return h->map->AddObstacle(o);
}
API int or_remove(Handle* h, int i) { return h->map->RemoveObstacle(h->obstacles[(size_t)i]); }
API int or_boundary(Handle* h, int i, int* out, int cap)
{
	auto c = h->obstacles[(size_t)i]->GetBoundaryGridCellPosition(*h->map);
	for (size_t k = 0; k < c.size() && (int)k < cap; ++k) {
		out[2 * k] = c[k].row;
		out[2 * k + 1] = c[k].col;
	}
	return (int)c.size();
}
API int or_vertices(Handle* h, int i, double* out, int cap)
{
	auto c = h->obstacles[(size_t)i]->GetBoundaryWorldPosition();
	for (size_t k = 0; k < c.size() && (int)k < cap; ++k) {
		out[2 * k] = c[k].x();
		out[2 * k + 1] = c[k].y();
	}
	return (int)c.size();
}
API void or_update(Handle* h)
{
	h->map->Update();
	if (!h->gvd)
		h->gvd = makeRef<GVD>(h->map);
	h->gvd->Update();
}
/// value, occupied, obstacle distance, edge distance, cost of every cell
API void or_cells(Handle* h, double* out)
{
	for (int i = 0; i < h->map->Rows(); ++i)
		for (int j = 0; j < h->map->Columns(); ++j) {
			*out++ = h->map->GetOccupancyValue(i, j);
			*out++ = h->map->IsOccupied({ i, j });
			*out++ = h->gvd->GetDistanceToNearestObstacle({ i, j });
			*out++ = h->gvd->GetDistanceToNearestVoronoiEdge({ i, j });
			*out++ = h->gvd->GetPathCost({ i, j });
		}
}
API void or_visualize(Handle* h, const char* file, int heuristic)
{
	if (heuristic)
		h->planner->VisualizeObstacleHeuristic(file);
	else
		h->gvd->Visualize(file);
}
/// whether the position is in the map, and the distances and the cost there
API int or_point(Handle* h, double x, double y)
{
	float f;
	return h->gvd->GetDistanceToNearestObstacle({ x, y }, f) + 2 * h->gvd->GetDistanceToNearestVoronoiEdge({ x, y }, f) + 4 * h->gvd->GetPathCost({ x, y }, f);
}
API void or_enforce(Handle* h, double* p)
{
	Pose2d q = { p[0], p[1], p[2] };
	h->space->EnforceBounds(q);
	p[0] = q.x(), p[1] = q.y(), p[2] = q.theta;
}
API void or_safe(Handle* h, double radius, double step)
{
	h->validator->minSafeRadius = (float)radius;
	h->validator->minPathInterpolationDistance = (float)step;
}
API int or_state(Handle* h, double x, double y, double t) { return h->validator->IsStateValid(Pose2d(x, y, t)); }
API int or_path_valid(Handle* h)
{
	return h->validator->IsPathValid(*h->path);
}

API void or_rs(Handle* h, double x, double y, double t, double a, double b, double u, double radius, double sw, double rev, double fwd)
{
	PathConnectionReedsShepp c(radius, sw, rev, fwd);
	h->path = c.Connect(Pose2d(x, y, t), Pose2d(a, b, u));
	h->non = dynamic_cast<PathNonHolonomicSE2Base*>(h->path.get());
}
API void or_steer(Handle* h, double wheelbase, double rear, double x, double y, double t, double steer, double len, int dir)
{
	auto p = makeRef<PathConstantSteer>(makeRef<KinematicBicycleModel>(wheelbase, rear), Pose2d(x, y, t), steer, len, dir > 0 ? Direction::Forward : dir < 0 ? Direction::Backward : Direction::NoMotion);
	h->path = p;
	h->non = p.get();
}
API void or_line(Handle* h, double x, double y, double t, double a, double b, double u)
{
	h->path = makeRef<PathSE2>(Pose2d(x, y, t), Pose2d(a, b, u));
	h->non = nullptr;
}
API void or_truncate(Handle* h, double r) { h->path->Truncate(r); }
/// length, initial, final, then pose and direction at each ratio
API void or_sample(Handle* h, const double* ratios, int n, double* out)
{
	auto put = [&](const Pose2d& p) { *out++ = p.x(); *out++ = p.y(); *out++ = p.theta; };
	*out++ = h->path->GetLength();
	put(h->path->GetInitialState());
	put(h->path->GetFinalState());
	for (int i = 0; i < n; ++i) {
		put(h->path->Interpolate(ratios[i]));
		*out++ = h->non ? (int)h->non->GetDirection(ratios[i]) : 0;
	}
}
API int or_cusps(Handle* h, double* out, int cap)
{
	int n = 0;
	for (double r : h->non->GetCuspPointRatios()) {
		if (n < cap)
			out[n] = r;
		n++;
	}
	return n;
}
API void or_direction_codes(int* out)
{
	out[0] = (int)Direction::Forward;
	out[1] = (int)Direction::Backward;
	out[2] = (int)Direction::NoMotion;
	out[3] = (int)Steer::Left;
	out[4] = (int)Steer::Straight;
	out[5] = (int)Steer::Right;
	out[6] = (int)Status::Success;
	out[7] = (int)Status::Failure;
	out[8] = (int)Smoother::Status::MaxIteration;
	out[9] = (int)Smoother::Status::StepTolerance;
	out[10] = (int)Smoother::Status::PathSize;
	out[11] = (int)Smoother::Status::Failure;
	out[12] = (int)Smoother::Status::Collision;
}

namespace {
	void Put(double* out, const HybridAStar::SearchParameters& p)
	{
		double v[] = { p.wheelbase, p.minTurningRadius, p.directionSwitchingCost, p.reverseCostMultiplier, p.forwardCostMultiplier, p.voronoiCostMultiplier, (double)p.numGeneratedMotion, p.spatialResolution, p.angularResolution };
		std::copy(std::begin(v), std::end(v), out);
	}
	void Put(double* out, const Smoother::Parameters& p)
	{
		double v[] = { p.stepTolerance, (double)p.maxIterations, p.learningRate, p.pathWeight, p.smoothWeight, p.voronoiWeight, p.collisionWeight, p.curvatureWeight, p.collisionRatio, p.maxCurvature };
		std::copy(std::begin(v), std::end(v), out);
	}
}
API void or_defaults(double* search, double* smoother, double curvature)
{
	Put(search, HybridAStar::SearchParameters());
	Put(smoother, Smoother::Parameters((float)curvature));
}
API int or_planner(Handle* h, const double* p, int defaults, double interp, double* search, double* smoother)
{
	h->planner = defaults ? makeRef<HybridAStar>() : makeRef<HybridAStar>(HybridAStar::SearchParameters(p[0], p[1], p[2], p[3], p[4], (unsigned)p[5], p[6], p[7]));
	if (interp > 0)
		h->planner->pathInterpolation = (float)interp;
	int ok = h->planner->Initialize(h->validator);
	Put(search, h->planner->GetSearchParameters());
	Put(smoother, h->planner->GetSmootherParameters());
	return ok;
}
API void or_smoother(Handle* h, const double* p)
{
	auto s = h->planner->GetSmootherParameters();
	s.stepTolerance = (float)p[0];
	s.maxIterations = (int)p[1];
	s.learningRate = (float)p[2];
	s.pathWeight = (float)p[3];
	s.smoothWeight = (float)p[4];
	s.voronoiWeight = (float)p[5];
	s.collisionWeight = (float)p[6];
	s.curvatureWeight = (float)p[7];
	s.collisionRatio = (float)p[8];
	h->planner->SetSmootherParameters(s);
}
/// head: status, cost, graph status, smoothing status, segments, explored, smoothed poses; returns the number of poses
API int or_search(Handle* h, double x, double y, double t, double a, double b, double u, double* head, double* out, int cap)
{
	h->planner->SetInitState(Pose2d(x, y, t));
	h->planner->SetGoalState(Pose2d(a, b, u));
	head[0] = h->planner->SearchPath();
	head[1] = h->planner->GetGraphSearchOptimalCost();
	head[2] = h->planner->GetStats().graphSearchStatus;
	head[3] = h->planner->GetStats().smoothingStatus;
	head[4] = (double)h->planner->GetGraphSearchPath().size();
	head[5] = (double)h->planner->GetGraphSearchExploredPathSet().size();
	head[6] = (double)h->planner->GetSmoothedPath().size();
	auto path = h->planner->GetPath();
	for (size_t i = 0; i < path.size() && (int)i < cap; ++i) {
		out[3 * i] = path[i].x();
		out[3 * i + 1] = path[i].y();
		out[3 * i + 2] = path[i].theta;
	}
	return (int)path.size();
}
