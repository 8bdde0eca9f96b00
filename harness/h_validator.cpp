// C13: state and path validation against the obstacles on the map.
#include "maps.h"
#include "paths/path_composite.h"
#include "paths/path_constant_steer.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_se2.h"
#include "models/kinematic_bicycle_model.h"
#include "state_space/state_space_r2.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_free.h"
#include "state_validator/state_validator_occupancy_map.h"
using namespace maps;
using vf::Ctx;
using vf::Register;

namespace {
	struct World {
		Ref<StateSpaceSE2> space;
		Ref<ObstacleListOccupancyMap> map;
		Ref<StateValidatorOccupancyMap> validator;
		Pose2d lb, ub;
		double x0 = 0, y0 = 0, res = 1;
		int rows = 0, cols = 0;
		double gx0 = 0, gy0 = 0; // local position of the corner of the grid
		std::vector<Cell> occ;
		std::vector<long> exact;

		long ExactAt(int r, int c) const { return exact[(size_t)r * cols + c]; }
		/// Exact distance between the cell of a position and the closest obstacle cell; -1 outside the grid.
		double CellDist(const Point2d& w) const
		{
			int r = (int)std::floor((w.x() - x0 - gx0) / res), c = (int)std::floor((w.y() - y0 - gy0) / res);
			if (r < 0 || c < 0 || r >= rows || c >= cols)
				return -1;
			long e = ExactAt(r, c);
			return e < 0 ? 1e9 : std::sqrt((double)e) * res;
		}
		/// How far a position is inside the bounds and the grid (negative: outside).
		double Border(const Point2d& w) const
		{
			double x = w.x() - x0, y = w.y() - y0;
			return std::min({ x - lb.x(), ub.x() - x, y - lb.y(), ub.y() - y, x - gx0, gx0 + rows * res - x, y - gy0, gy0 + cols * res - y });
		}
	};

	World MakeWorld(Ctx& c)
	{
		auto& r = c.rng;
		World w;
		w.res = (float)r.Pick({ 0.1, 0.25, 0.5, 1.0, 0.3 });
		bool large = r.Rare(0.01);
		double unit = std::max(w.res, 0.2), half = r.U(3, large ? 100 : 16) * unit, halfy = r.U(3, large ? 100 : 16) * unit;
		double cx = 0, cy = 0;
		if (r.P(0.25)) { // bounds which are not centred on the map
			cx = r.U(-0.5, 0.5) * half;
			cy = r.U(-0.5, 0.5) * halfy;
		}
		double th = r.P(0.8) ? M_PI : r.U(0.5, 3);
		w.lb = Pose2d(cx - half, cy - halfy, -th);
		w.ub = Pose2d(cx + half, cy + halfy, th);
		w.space = makeRef<StateSpaceSE2>(w.lb, w.ub);
		w.map = makeRef<ObstacleListOccupancyMap>((float)w.res);
		w.x0 = r.P(0.4) ? 0 : r.U(-20, 20);
		w.y0 = r.P(0.4) ? 0 : r.U(-20, 20);
		bool before = r.P(0.7);
		if (before)
			w.map->SetPosition({ w.x0, w.y0 });
		w.validator = makeRef<StateValidatorOccupancyMap>(w.space, w.map);
		if (!before)
			w.map->SetPosition({ w.x0, w.y0 });
		w.rows = w.map->Rows();
		w.cols = w.map->Columns();
		auto corner = w.map->GridCellToLocalPosition(0, 0);
		w.gx0 = corner.x();
		w.gy0 = corner.y();
		c.Check(w.rows == (int)std::ceil((float)(2 * half) / (float)w.res) && w.cols == (int)std::ceil((float)(2 * halfy) / (float)w.res), "grid-size", VF_MSG(w.rows << "x" << w.cols << " for " << 2 * half << "x" << 2 * halfy << " at " << w.res));
		c.Check(std::fabs(w.gx0 + half) < 1e-3 && std::fabs(w.gy0 + halfy) < 1e-3, "grid-centred", VF_MSG(w.gx0 << "," << w.gy0));
		w.validator->minSafeRadius = (float)r.Pick({ 0.3, 0.6, 1.0, 1.0, 1.7, 2.5, 0.0 });
		w.validator->minPathInterpolationDistance = (float)r.Pick({ 0.02, 0.1, 0.1, 0.3 });
		MapSpec m { w.map, w.res, 2 * half, 2 * halfy, w.x0, w.y0, w.rows, w.cols };
		int n = r.I(0, large ? 300 : 6);
		for (int i = 0; i < n; ++i) {
			auto o = makeRef<Obstacle>();
			auto s = RandomShape(r, (large ? r.U(0.01, 0.1) : r.U(0.05, 0.4)) * std::max(half, halfy));
			o->SetShape(s.shape);
			o->SetPose(RandomPose(r, m, 0.1));
			w.map->AddObstacle(o);
			if (r.P(0.2))
				w.map->RemoveObstacle(o);
			if (r.P(0.3))
				w.map->Update();
		}
		w.map->Update();
		for (int i = 0; i < w.rows; ++i)
			for (int j = 0; j < w.cols; ++j)
				if (w.map->IsOccupied({ i, j }))
					w.occ.push_back({ i, j });
		w.exact = ExactDistance(w.rows, w.cols, w.occ);
		c.desc << w.rows << "x" << w.cols << " res " << w.res << " at " << w.x0 << "," << w.y0 << " bounds centre " << cx << "," << cy << " th " << th << " occ " << w.occ.size()
			   << " R " << w.validator->minSafeRadius << " step " << w.validator->minPathInterpolationDistance;
		c.Sig(half); c.Sig(w.x0); c.Sig((int)w.occ.size());
		return w;
	}

	constexpr double excess = 0.3; // brush fire, in cells (see C11)

	Register state("state", 1, [](Ctx& c) {
		auto& r = c.rng;
		World w = MakeWorld(c);
		if (!w.occ.empty())
			c.Nontrivial();
		double R = w.validator->minSafeRadius;
		for (int k = 0; k < 120; ++k) {
			Point2d p(w.x0 + r.U(w.lb.x() - 1, w.ub.x() + 1), w.y0 + r.U(w.lb.y() - 1, w.ub.y() + 1));
			double th = r.U(-1.3, 1.3) * w.ub.theta;
			double border = w.Border(p);
			if (std::fabs(border) < 1e-5)
				continue;
			double wth = std::remainder(th, 2 * M_PI); // headings are modulo one turn
			if (std::fabs(std::fabs(wth) - w.ub.theta) < 1e-9)
				continue;
			bool heading = wth >= w.lb.theta && wth <= w.ub.theta;
			double d = w.CellDist(p);
			bool got = w.validator->IsStateValid(Pose2d(p, th));
			c.Count(got ? "valid" : "invalid");
			if (border < 0)
				c.Check(!got, "outside-valid", VF_MSG("state " << p.transpose() << " is " << -border << " outside, but valid"));
			else if (!heading)
				c.Check(!got, "heading-valid", VF_MSG("heading " << th << " is out of bounds, but valid"));
			else if (d < 0)
				continue; // rounding at a cell border
			else if (d < R - excess * w.res - 1e-4)
				c.Check(!got, "unsafe-valid", VF_MSG("state " << p.transpose() << " is " << d << " from an obstacle (safe radius " << R << "), but valid"));
			else if (d > R + 1e-4)
				c.Check(got, "safe-invalid", VF_MSG("state " << p.transpose() << " heading " << th << " is " << d << " from obstacles (safe radius " << R << ") and " << border << " inside, but invalid"));
			// occupied cells are never valid as soon as a safe radius is asked for
			if (d == 0 && R > 0)
				c.Check(!got, "occupied-valid", VF_MSG(p.transpose()));
		}
	});

	// The safe radius is the exact limit: a state is valid up to the distance of its cell, and not beyond.
	Register threshold("threshold", 1, [](Ctx& c) {
		auto& r = c.rng;
		World w = MakeWorld(c);
		if (w.occ.empty())
			return;
		auto& v = *w.validator;
		for (int k = 0; k < 40; ++k) {
			int i = r.I(0, w.rows - 1), j = r.I(0, w.cols - 1);
			Point2d p = w.map->GridCellToWorldPosition(i, j) + Point2d(r.U(0.2, 0.8), r.U(0.2, 0.8)) * w.res;
			if (w.Border(p) < 1e-4)
				continue;
			// the distance the map reports is compared with the true one by C11
			float d = w.map->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(i, j);
			Pose2d s(p, r.U(0, 0.9) * w.ub.theta);
			auto valid = [&](float radius) { v.minSafeRadius = radius; return v.IsStateValid(s); };
			c.Check(valid(0.0f), "radius-zero", VF_MSG("cell " << i << "," << j << " is invalid without a safe radius"));
			if (d > 0)
				c.Check(valid(d * 0.99999f), "radius-below", VF_MSG("state invalid " << d << " away from obstacles with a safe radius of " << d * 0.99999f));
			if (d > 0)
				c.Check(!valid(d * 1.00001f), "radius-above", VF_MSG("state valid " << d << " away from an obstacle with a safe radius of " << d * 1.00001f));
			else
				c.Check(!valid(1e-4f), "radius-above", VF_MSG("state valid in an occupied cell"));
			double cells = d / w.res;
			if (w.res != 0.1f && w.res != 0.3f && cells == std::round(cells)) { // no rounding anywhere
				c.Check(valid(d), "radius-equal", VF_MSG("state invalid exactly " << d << " away from an obstacle, the safe radius"));
				c.Count("equal-radii");
			}
			std::vector<double> radii;
			for (int n = 0; n < 8; ++n) radii.push_back(r.U(0, 2) * (d + w.res));
			std::sort(radii.begin(), radii.end());
			bool before = true;
			for (double x : radii) {
				bool now = valid((float)x);
				c.Check(before || !now, "radius-monotonic", VF_MSG("a state became valid when the safe radius was raised to " << x));
				before = now;
			}
			c.Nontrivial();
		}
		// and so are the bounds
		if (w.x0 == 0 && w.y0 == 0) {
			v.minSafeRadius = 0;
			double th = w.ub.theta;
			for (int k = 0; k < 10; ++k) {
				Point2d p(r.U(w.lb.x(), w.ub.x()), r.U(w.lb.y(), w.ub.y()));
				if (w.Border(p) < 1e-4 || w.CellDist(p) < 0)
					continue;
				for (double sign : { -1.0, 1.0 }) {
					if (th < 3.1) {
						c.Check(v.IsStateValid(Pose2d(p, sign * th)), "heading-bound", VF_MSG("a heading on its bound " << sign * th << " is invalid"));
						c.Check(!v.IsStateValid(Pose2d(p, sign * (th + 1e-6))), "heading-bound", VF_MSG("a heading beyond its bound " << sign * th << " is valid"));
					}
					for (int axis = 0; axis < 2; ++axis) {
						Point2d q = p;
						double bound = sign < 0 ? std::max(axis ? w.lb.y() : w.lb.x(), axis ? w.gy0 : w.gx0) : std::min(axis ? w.ub.y() : w.ub.x(), axis ? w.gy0 + w.cols * w.res : w.gx0 + w.rows * w.res);
						q[axis] = bound - sign * 1e-5;
						if (w.CellDist(q) >= 0)
							c.Check(v.IsStateValid(Pose2d(q, 0)), "position-bound", VF_MSG("a state just within the bound " << bound << " of axis " << axis << " is invalid"));
						q[axis] = bound + sign * 1e-5;
						c.Check(!v.IsStateValid(Pose2d(q, 0)), "position-bound", VF_MSG("a state just beyond the bound " << bound << " of axis " << axis << " is valid"));
					}
				}
			}
		}
	});

	Ref<PathSE2Base> RandomPath(Ctx& c, const World& w, std::string& what)
	{
		auto& r = c.rng;
		auto pose = [&]() {
			Pose2d p;
			for (int k = 0; k < 8; ++k) {
				p = Pose2d(w.x0 + r.U(w.lb.x(), w.ub.x()), w.y0 + r.U(w.lb.y(), w.ub.y()), r.U(w.lb.theta, w.ub.theta));
				if (std::fabs(p.theta) > M_PI)
					p.theta = r.U(-M_PI, M_PI);
				if (w.validator->IsStateValid(p))
					break;
			}
			return p;
		};
		double scale = std::max(w.ub.x() - w.lb.x(), w.ub.y() - w.lb.y());
		Pose2d a = pose();
		switch (r.I(0, 4)) {
		case 0: what = "se2"; return makeRef<PathSE2>(a, pose());
		case 1: what = "se2-short"; {
			Pose2d b = a;
			b.position += Point2d(r.U(-1, 1), r.U(-1, 1)) * r.Pick({ 0.05, 0.3, 1.0 });
			return makeRef<PathSE2>(a, b);
		}
		case 2: {
			what = "steer";
			auto model = makeRef<KinematicBicycleModel>(r.U(1, 3), 0.0);
			return makeRef<PathConstantSteer>(model, a, r.U(-0.5, 0.5), r.U(0.05, 0.8) * scale, r.P(0.5) ? Direction::Forward : Direction::Backward);
		}
		case 3: {
			what = "reeds-shepp";
			Pose2d b = pose();
			double rad = r.U(0.3, 3);
			auto seg = ReedsShepp::Solver::GetShortestPath(a, b, rad);
			return makeRef<PathReedsShepp>(a, seg, rad);
		}
		default: {
			what = "composite";
			auto p = makeRef<PathSE2CompositeNonHolonomic>();
			Pose2d cur = a;
			int n = r.I(1, 4);
			for (int i = 0; i < n; ++i) {
				Pose2d b = pose();
				double rad = r.U(0.3, 2);
				auto seg = ReedsShepp::Solver::GetShortestPath(cur, b, rad);
				auto q = makeRef<PathReedsShepp>(cur, seg, rad);
				p->PushBack(q);
				cur = q->GetFinalState();
			}
			return p;
		}
		}
	}

	Register path("path", 2, [](Ctx& c) {
		auto& r = c.rng;
		World w = MakeWorld(c);
		auto& v = *w.validator;
		double R = v.minSafeRadius, step = v.minPathInterpolationDistance;
		for (int k = 0; k < 6; ++k) {
			std::string what;
			auto p = RandomPath(c, w, what);
			double len = p->GetLength();
			float last = -7;
			bool ok = v.IsPathValid(*p, &last);
			c.desc << " | " << what << " " << len << (ok ? " ok" : " blocked");
			c.Check(v.IsPathValid(*p) == ok, "null-last", VF_MSG("the answer depends on whether the last valid ratio is asked for"));
			Pose2d lastState(1e9, 1e9, 1.0);
			bool ok2 = v.StateValidatorSE2Base::IsPathValid(*p, &lastState);
			c.Check(ok2 == ok, "state-overload", VF_MSG("overloads disagree"));
			if (!c.Check(last >= 0 && last <= 1, "last-range", VF_MSG("last valid ratio " << last)))
				continue;
			Pose2d at = p->Interpolate(last);
			c.Check((at.position - lastState.position).norm() < 1e-6, "state-overload", VF_MSG("last valid state " << lastState.position.transpose() << " expected " << at.position.transpose()));
			if (ok) {
				c.Check(last == 1.0f, "last-of-valid", VF_MSG("path is valid but the last valid ratio is " << last));
				// skip rounding at the very border
				Pose2d end = p->GetFinalState();
				if (std::fabs(w.Border(end.position)) > 1e-6)
					c.Check(v.IsStateValid(end) || v.IsStateValid(p->Interpolate(1.0)), "end-invalid", VF_MSG(what << " of length " << len << " is valid but ends in the invalid state " << end.position.transpose() << " " << end.theta));
				c.Check(v.IsStateValid(p->GetInitialState()) || v.IsStateValid(p->Interpolate(0.0)), "start-invalid", VF_MSG(what << " starts in an invalid state"));
			} else if (!v.IsStateValid(p->GetInitialState())) {
				if (len > 1e-6)
					c.Check(last == 0.0f, "last-of-invalid-start", VF_MSG("the first state is invalid but the last valid ratio is " << last));
			} else if (len > 0) {
				bool near = false;
				for (double e : { 0.0, -1e-6, 1e-6, -1e-5, 1e-5 })
					near = near || v.IsStateValid(p->Interpolate(std::clamp((double)last + e, 0.0, 1.0)));
				c.Check(near, "last-invalid", VF_MSG(what << ": the state at the last valid ratio " << last << " is invalid"));
			}
			// everything up to the last valid state is safe, within the sampling tolerance
			bool startOk = v.IsStateValid(p->GetInitialState());
			double safe = ok ? 1.0 : startOk ? last : -1;
			double tol = std::sqrt(2.0) * w.res + step / 2 + excess * w.res + 1e-3;
			int n = (int)std::min(4000.0, std::ceil(len / std::min(0.05, w.res / 3)) + 2);
			double h = len / n;
			double worst = 1e300, worstBorder = 1e300; // after `last`
			double headingMargin = 1e300;
			for (int i = 0; i <= n; ++i) {
				double q = (double)i / n;
				Pose2d s = p->Interpolate(q);
				double d = w.CellDist(s.position), b = w.Border(s.position);
				if (q <= safe) {
					c.Check(b >= -step / 2 - 1e-3, "leaves-map", VF_MSG(what << " of length " << len << ": validated up to " << safe << " but at " << q << " the path is " << -b << " outside"));
					if (d >= 0)
						c.Check(d >= R - tol, "hits-obstacle", VF_MSG(what << " of length " << len << ": validated up to " << safe << " but at " << q << " the path is " << d << " from an obstacle (safe radius " << R << ")"));
				}
				if (q >= last - 1e-6) {
					worst = std::min(worst, d < 0 ? 0 : d);
					worstBorder = std::min(worstBorder, b);
					double wt = std::remainder(s.theta, 2 * M_PI);
					headingMargin = std::min({ headingMargin, wt - w.lb.theta, w.ub.theta - wt });
				}
			}
			if (!ok)
				c.Check(worst < R + h + std::sqrt(2.0) * w.res + 1e-3 || worstBorder < h + 1e-3 || (w.ub.theta < 3.1 && headingMargin < h * 10 + 1e-3), "safe-path-rejected", VF_MSG(what << " of length " << len << " is rejected after " << last << " but stays " << worst << " away from obstacles (safe radius " << R << ") and " << worstBorder << " inside"));
			c.Count(ok ? "paths-valid" : "paths-invalid");
			if (!w.occ.empty() && len > 0)
				c.Nontrivial();
			c.Sig(len);
			if (c.Failed())
				return;
		}
	});

	Register freeV("free", 1, [](Ctx& c) {
		auto& r = c.rng;
		Pose2d lb(r.U(-5, 0), r.U(-5, 0), r.U(-3, 0)), ub(r.U(0, 5), r.U(0, 5), r.U(0, 3));
		auto space = makeRef<StateSpaceSE2>(lb, ub);
		StateValidatorSE2Free v(space);
		c.Sig(lb.x());
		c.Nontrivial();
		for (int i = 0; i < 20; ++i) {
			Pose2d p(r.U(-6, 6), r.U(-6, 6), r.U(-4, 4));
			bool in = p.x() >= lb.x() && p.x() <= ub.x() && p.y() >= lb.y() && p.y() <= ub.y() && p.theta >= lb.theta && p.theta <= ub.theta;
			c.Check(v.IsStateValid(p) == in, "free-bounds", VF_MSG(p.x() << "," << p.y() << "," << p.theta));
			PathSE2 q(p, Pose2d(r.U(-6, 6), 0, 0));
			float last = -1;
			c.Check(v.IsPathValid(q, &last) && last == 1.0f && v.IsPathValid(q), "free-path", VF_MSG(last));
		}
		c.Check(v.GetStateSpace() == space, "space", VF_MSG(""));
	});
}
