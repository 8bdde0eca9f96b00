// C03-C06: the hybrid A* planner.
#include "world.h"
#include "algo/hybrid_a_star.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_constant_steer.h"
#include "paths/path_reeds_shepp.h"
#include "state_validator/gvd.h"
#include <sys/wait.h>
using namespace maps;
using vf::Ctx;
using vf::Register;

namespace {
	constexpr double excess = 0.3; // brush fire, in cells (see C11)

	struct Prm {
		double R = 2, sw = 0, rev = 1, fwd = 1, voro = 0;
		unsigned num = 5;
		double sres = 1, ares = 0.2;
		float interp = 0.1f;
		HybridAStar::SearchParameters P() const { return HybridAStar::SearchParameters(R, sw, rev, fwd, voro, num, sres, ares); }
	};

	Prm RandomPrm(Ctx& c)
	{
		auto& r = c.rng;
		Prm p;
		p.R = r.Pick({ 0.8, 1.2, 2.0, 2.0, 3.0 });
		p.sw = r.Pick({ 0.0, 0.0, 0.5, 2.0 });
		p.rev = r.Pick({ 1.0, 1.0, 1.5, 2.0 });
		p.fwd = r.Pick({ 1.0, 1.0, 1.3 });
		p.voro = r.Pick({ 0.0, 0.0, 1.0, 3.0 });
		p.num = (unsigned)r.Pick({ 1, 2, 3, 5, 5, 5, 6, 7, 8, 9 });
		p.sres = r.Pick({ 0.5, 1.0, 1.0, 1.5 });
		p.ares = r.Pick({ 0.0872, 0.2, 0.2, 0.4 });
		p.interp = (float)r.Pick({ 0.05, 0.1, 0.1, 0.3, 1.0 });
		c.desc << " | R " << p.R << " sw " << p.sw << " rev " << p.rev << " fwd " << p.fwd << " voro " << p.voro << " num " << p.num << " sres " << p.sres << " ares " << p.ares << " interp " << p.interp;
		c.Sig(p.R); c.Sig(p.sres); c.Sig((int)p.num);
		return p;
	}

	double HeadingDiff(double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)); }
	bool Same(const Pose2d& a, const Pose2d& b, double tp = 2e-3, double ta = 1e-3) { return (a.position - b.position).norm() <= tp && HeadingDiff(a.theta, b.theta) <= ta; }
	std::string Str(const Pose2d& p)
	{
		std::ostringstream os;
		os.precision(12);
		os << "(" << p.x() << "," << p.y() << "," << p.theta << ")";
		return os.str();
	}

	/// The sum of the Voronoi field along a segment, sampled at every cell diagonal.
	/// Also returns how much one sample falling in the neighbouring cell could change it.
	double VoronoiIntegral(const World& w, GVD& gvd, const PathNonHolonomicSE2Base& path, double& slack)
	{
		double sum = 0;
		float step = w.map->resolution * std::sqrt(2.0);
		double len = path.GetLength();
		for (double l = 0; l < len; l += step) {
			auto pos = path.Interpolate(l / len).position;
			auto cell = w.map->WorldPositionToGridCell(pos, false);
			double fx = (pos.x() - w.x0 - w.gx0) / w.res, fy = (pos.y() - w.y0 - w.gy0) / w.res;
			bool edge = std::fabs(fx - std::round(fx)) < 1e-4 || std::fabs(fy - std::round(fy)) < 1e-4;
			bool in = w.map->IsInsideMap(cell);
			if (in)
				sum += gvd.GetPathCost(cell);
			if (edge || !in || len - l < 1e-5)
				slack += step;
		}
		return sum * step;
	}

	/// A dense look at a path: the smallest distance to obstacles and to the borders.
	void Clearance(const World& w, const PathNonHolonomicSE2Base& p, double& dist, double& border, double h = 0.05)
	{
		double len = p.GetLength();
		int n = (int)std::min(4000.0, std::ceil(len / h) + 1);
		for (int i = 0; i <= n; ++i) {
			auto s = p.Interpolate((double)i / n).position;
			double d = w.CellDist(s);
			if (d >= 0) // outside of the grid: seen by the distance to the border
				dist = std::min(dist, d);
			border = std::min(border, w.Border(s));
		}
	}

	struct Outcome {
		bool success = false;
		double cost = 0;
		int expanded = 0;
	};

	/// Whether two poses are in the same cell of the search, or next to the border between their cells.
	bool SameCell(const Prm& p, const Pose2d& a, const Pose2d& b)
	{
		auto near = [](double x, double y, double res) { return std::fabs(x - y) <= res * 1.001 || (std::fabs(x) <= res * 1.001 && std::fabs(y) <= res * 1.001); };
		double ta = std::remainder(a.theta, 2 * M_PI), tb = std::remainder(b.theta, 2 * M_PI);
		return near(a.x(), b.x(), p.sres) && near(a.y(), b.y(), p.sres) && (near(ta, tb, p.ares) || HeadingDiff(ta, tb) <= 1.001 * p.ares);
	}

	/// The search tree: from the start, and if the search failed from everywhere, each primitive motion
	/// that is clearly free leads to a cell that was reached.
	void CheckExpansion(Ctx& c, const World& w, HybridAStar& planner, const Prm& p, const Pose2d& start, bool success)
	{
		const double R = w.validator->minSafeRadius;
		auto explored = planner.GetGraphSearchExploredPathSet();
		std::vector<Pose2d> ends = { start };
		std::unordered_map<long, std::vector<size_t>> index;
		auto key = [&](double x, double y) { return (long)std::floor(x / p.sres) * 100003 + (long)std::floor(y / p.sres); };
		for (auto& e : explored)
			ends.push_back(e->GetFinalState());
		std::sort(ends.begin() + 1, ends.end(), [](const Pose2d& a, const Pose2d& b) { return std::make_tuple(a.x(), a.y(), a.theta) < std::make_tuple(b.x(), b.y(), b.theta); });
		for (size_t i = 0; i < ends.size(); ++i)
			index[key(ends[i].x(), ends[i].y())].push_back(i);
		std::vector<double> curvature = { 0 };
		const double wheelbase = planner.GetSearchParameters().wheelbase;
		const unsigned num = p.num / 2;
		for (unsigned i = 1; i <= num; ++i) {
			double k = std::tan(i * std::atan(wheelbase / p.R) / num) / wheelbase;
			curvature.push_back(k);
			curvature.push_back(-k);
		}
		std::vector<size_t> from = { 0 };
		if (!success)
			for (int k = 0; k < 25 && ends.size() > 1; ++k)
				from.push_back(1 + c.rng.Next() % (ends.size() - 1));
		for (size_t f : from)
			for (double kappa : curvature)
				for (int sign : { 1, -1 }) {
					const Pose2d a = ends[f];
					Pose2d b = a;
					double dist = 1e300, border = 1e300, len = sign * 1.5 * p.sres;
					const int n = 24;
					for (int i = 0; i <= n; ++i) {
						double l = len * i / n, t = a.theta + kappa * l;
						if (kappa == 0)
							b = Pose2d(a.x() + l * std::cos(t), a.y() + l * std::sin(t), t);
						else
							b = Pose2d(a.x() + (std::sin(t) - std::sin(a.theta)) / kappa, a.y() - (std::cos(t) - std::cos(a.theta)) / kappa, t);
						double d = w.CellDist(b.position);
						if (d >= 0)
							dist = std::min(dist, d);
						border = std::min(border, w.Border(b.position));
					}
					if (dist <= R + 2 * w.res + 0.05 || border <= 0.05)
						continue;
					bool found = false;
					for (int x = -2; x <= 2 && !found; ++x)
						for (int y = -2; y <= 2 && !found; ++y) {
							auto it = index.find(key(b.x() + x * p.sres, b.y() + y * p.sres));
							if (it == index.end())
								continue;
							for (size_t i : it->second)
								found = found || SameCell(p, ends[i], b);
						}
					c.Check(found, f ? "unexplored" : "start-unexpanded", VF_MSG("the motion of length " << len << " and curvature " << kappa << " from the " << (f ? "explored state " : "start ") << Str(a) << " is free, but nothing near its end " << Str(b) << " was reached"));
					c.Count(f ? "closure" : "first-motions");
				}
	}

	/// Search and check everything that is promised about the answer.
	Outcome SearchAndCheck(Ctx& c, World& w, HybridAStar& planner, GVD& gvd, const Prm& p, const Pose2d& start, const Pose2d& goal)
	{
		Outcome out;
		const double R = w.validator->minSafeRadius;
		planner.SetInitState(start);
		planner.SetGoalState(goal);
		auto st = planner.SearchPath();
		auto path = planner.GetPath();
		auto segments = planner.GetGraphSearchPath();
		double cost = planner.GetGraphSearchOptimalCost();
		auto& stats = planner.GetStats();
		out.success = st >= 0;
		out.cost = cost;
		c.desc << " | " << Str(start) << "->" << Str(goal) << (out.success ? " ok " : " none ") << segments.size() << " segments cost " << cost << " path " << path.size() << " smoothing " << stats.smoothingStatus;
		c.Count(out.success ? "success" : "failure");

		bool startOk = w.validator->IsStateValid(start), goalOk = w.validator->IsStateValid(goal);
		c.Check(st == Status::Success || st == Status::Failure, "status", VF_MSG("status " << st));
		c.Check((stats.graphSearchStatus >= 0) == out.success, "stats", VF_MSG("search status " << st << " but the graph search status is " << stats.graphSearchStatus));
		if (!out.success) {
			// nothing of an earlier search is left
			c.Check(path.empty(), "stale-path", VF_MSG("the search failed, but a path of " << path.size() << " poses is returned"));
			c.Check(segments.empty(), "stale-segments", VF_MSG("the search failed, but " << segments.size() << " segments are returned"));
			c.Check(std::isinf(cost), "stale-cost", VF_MSG("the search failed, but its cost is " << cost));
			c.Check(stats.smoothingStatus < 0, "stale-smoothing", VF_MSG("the search failed, but smoothing is reported to have succeeded"));
		} else if (!Same(start, goal, 1e-2, 1e-2)) {
			c.Check(startOk, "invalid-start", VF_MSG("a path from an invalid start was found"));
			c.Check(goalOk, "invalid-goal", VF_MSG("a path to an invalid goal was found"));
		}

		// is the curve to the goal free, with room to spare?
		if (startOk && goalOk) {
			auto seg = ReedsShepp::Solver::GetOptimalPath(start, goal, p.R, p.rev, p.fwd, p.sw);
			PathReedsShepp direct(start, seg, p.R);
			double rsCost = direct.ComputeCost(p.sw, p.rev, p.fwd);
			double dist = 1e300, border = 1e300;
			Clearance(w, direct, dist, border, 0.02);
			bool free = dist > R + 2 * w.res + 0.05 && border > 0.05;
			if (free && rsCost < 6.5) {
				c.Count("direct-possible");
				if (c.Check(out.success, "direct-missed", VF_MSG("no path from " << Str(start) << " to " << Str(goal) << " although the Reeds-Shepp curve of cost " << rsCost << " stays " << dist << " away from obstacles"))) {
					double slack = 0;
					double bound = rsCost + p.voro * VoronoiIntegral(w, gvd, direct, slack);
					c.Check(cost <= bound + p.voro * slack + 0.002 * bound + 1e-3, "worse-than-direct", VF_MSG("cost " << cost << " but going straight to the goal costs " << bound));
				}
			}
			if (out.success)
				{
				double shortest = ReedsShepp::Solver::GetShortestDistance(start, goal, p.R) * std::min(p.rev, p.fwd);
				c.Check(cost >= shortest * (1 - 1e-6) - 0.02 * std::max({ 1.0, p.rev, p.fwd }), "cheaper-than-shortest", VF_MSG("cost " << cost << " below the cost " << shortest << " of the shortest curve without obstacles"));
			}
		}
		if (startOk && goalOk && !Same(start, goal, 1e-2, 1e-2))
			CheckExpansion(c, w, planner, p, start, out.success);
		if (!out.success || c.Failed())
			return out;

		// --- C06: the graph search path
		double total = 0, voroTotal = 0, slack = 0, length = 0;
		Direction dir = Direction::NoMotion;
		Pose2d cur = start;
		double tolSafe = std::sqrt(2.0) * w.res + w.validator->minPathInterpolationDistance / 2 + excess * w.res + 1e-3;
		std::vector<double> joints;
		std::vector<Point2d> dense;
		std::vector<Pose2d> turns; // where the direction changes
		for (size_t i = 0; i < segments.size(); ++i) {
			auto& s = segments[i];
			if (!c.Check((bool)s, "null-segment", VF_MSG(i)))
				return out;
			double len = s->GetLength();
			c.Check(Same(s->GetInitialState(), cur, 1e-6, 1e-6), "segments-join", VF_MSG("segment " << i << " starts at " << Str(s->GetInitialState()) << ", the previous one ends at " << Str(cur)));
			c.Check(len > 0 && std::isfinite(len), "segment-length", VF_MSG("segment " << i << " has length " << len));
			cur = s->GetFinalState();
			// feasible: moves along its heading, and turns no tighter than the turning radius
			int n = (int)std::min(2000.0, std::ceil(len / 0.02) + 2);
			double h = len / n;
			auto cusps = s->GetCuspPointRatios();
			Pose2d a = s->Interpolate(0.0);
			c.Check(Same(a, s->GetInitialState(), 1e-6, 1e-6), "segment-ends", VF_MSG("segment " << i << " does not start where it says"));
			for (int k = 1; k <= n; ++k) {
				Pose2d b = s->Interpolate((double)k / n);
				double dth = HeadingDiff(a.theta, b.theta);
				Point2d d = b.position - a.position;
				if (!c.Check(dth <= h / p.R * 1.001 + 1e-6, "curvature", VF_MSG("segment " << i << " turns " << dth << " over a length of " << h << " (radius " << h / dth << ", minimum " << p.R << ")")))
					return out;
				if (!c.Check(d.norm() <= h * 1.001 + 1e-9, "jump", VF_MSG("segment " << i << " moves " << d.norm() << " over a length of " << h)))
					return out;
				double lo = (k - 1.0) / n, hi = (double)k / n;
				bool cusp = false;
				for (double q : cusps)
					cusp = cusp || (q >= lo - 1e-9 && q <= hi + 1e-9);
				if (!cusp && h > 1e-6) {
					double mid = a.theta + std::remainder(b.theta - a.theta, 2 * M_PI) / 2;
					Point2d t(std::cos(mid), std::sin(mid));
					double along = d.dot(t), side = std::fabs(d.x() * t.y() - d.y() * t.x());
					c.Check(side <= 2e-2 * h + 1e-9, "side-slip", VF_MSG("segment " << i << " slips sideways by " << side << " over " << h));
					auto sd = s->GetDirection((lo + hi) / 2);
					c.Check((along > 0) == (sd == Direction::Forward), "direction", VF_MSG("segment " << i << " moves " << along << " along its heading in direction " << (int)sd));
				}
				a = b;
			}
			c.Check(Same(a, s->GetFinalState(), 1e-6, 1e-6), "segment-ends", VF_MSG("segment " << i << " does not end where it says"));
			// safe
			double dist = 1e300, border = 1e300;
			Clearance(w, *s, dist, border);
			c.Check(dist >= R - tolSafe, "segment-hits", VF_MSG("segment " << i << " comes within " << dist << " of an obstacle (safe radius " << R << ")"));
			c.Check(border >= -w.validator->minPathInterpolationDistance / 2 - 1e-3, "segment-leaves", VF_MSG("segment " << i << " is " << -border << " outside of the map"));
			c.Check(w.validator->IsStateValid(s->GetFinalState()) || std::fabs(w.Border(s->GetFinalState().position)) < 1e-4, "segment-end-invalid", VF_MSG("segment " << i << " ends in an invalid state"));
			// cost: length in each direction, changes of direction, Voronoi field
			std::vector<double> cuts(cusps.begin(), cusps.end());
			cuts.insert(cuts.begin(), 0.0);
			cuts.push_back(1.0);
			for (size_t k = 0; k + 1 < cuts.size(); ++k) {
				double l = (cuts[k + 1] - cuts[k]) * len;
				if (l <= 1e-9)
					continue;
				auto sd = s->GetDirection((cuts[k] + cuts[k + 1]) / 2);
				c.Check(sd == Direction::Forward || sd == Direction::Backward, "no-direction", VF_MSG("segment " << i << " has no direction"));
				total += l * (sd == Direction::Forward ? p.fwd : p.rev);
				if (dir != Direction::NoMotion && sd != dir) {
					total += p.sw;
					c.Count("switches");
					turns.push_back(s->Interpolate(cuts[k]));
				}
				dir = sd;
			}
			voroTotal += VoronoiIntegral(w, gvd, *s, slack);
			length += len;
			joints.push_back(length);
		}
		c.Check(Same(cur, goal), "reaches-goal", VF_MSG("the graph search path ends at " << Str(cur) << " not at the goal " << Str(goal)));
		double want = total + p.voro * voroTotal;
		c.Check(std::fabs(cost - want) <= 2e-3 * want + 1e-3 + p.voro * slack, "cost", VF_MSG("cost " << cost << " expected " << want << " (motion " << total << ", Voronoi field " << p.voro * voroTotal << ", " << segments.size() << " segments)"));
		c.Max("segments", (long)segments.size());

		// --- C04: the path returned
		if (!c.Check(!path.empty(), "empty-path", VF_MSG("success, but the path is empty")))
			return out;
		for (auto& q : path)
			c.Check(std::isfinite(q.x()) && std::isfinite(q.y()) && std::isfinite(q.theta), "finite", VF_MSG("pose " << Str(q)));
		c.Check(Same(path.front(), start), "starts-at-start", VF_MSG("the path starts at " << Str(path.front()) << " not at " << Str(start)));
		c.Check(Same(path.back(), goal), "ends-at-goal", VF_MSG("the path ends at " << Str(path.back()) << " not at " << Str(goal)));
		bool smooth = stats.smoothingStatus >= 0;
		c.Count(smooth ? "smoothed" : "raw");
		// with or without smoothing, the vehicle changes direction where the graph search says
		for (auto& q : turns) {
			size_t k = 0;
			while (k < path.size() && !Same(path[k], q, 2e-3, 2e-3))
				++k;
			c.Count(smooth ? "cusp-smoothed" : "cusp-raw");
			c.Check(k < path.size(), "cusp", VF_MSG("the direction changes at " << Str(q) << ", but no pose of the " << (smooth ? "smoothed " : "") << "path is there"));
		}
		// with or without smoothing, there is a pose for each step along the graph search path
		c.Check((double)path.size() >= length / p.interp * 0.6 - 2, "too-few-poses", VF_MSG(path.size() << " poses for a path of length " << length << " and a step of " << p.interp));
		c.Check((double)path.size() <= length / p.interp + segments.size() * 6 + 8, "too-many-poses", VF_MSG(path.size() << " poses for a path of length " << length << " and a step of " << p.interp));
		if (!smooth) {
			double at = 0;
			size_t seg = 0;
			(void)at; (void)seg;
			for (size_t i = 0; i + 1 < path.size(); ++i) {
				double d = (path[i + 1].position - path[i].position).norm();
				if (!c.Check(d <= p.interp * 1.51 + 1e-6, "spacing", VF_MSG("poses " << i << " and " << i + 1 << " of " << path.size() << " are " << d << " apart (step " << p.interp << ")")))
					break;
			}
			// every pose lies on the graph search path, in order
			double s0 = 0;
			std::vector<Pose2d> ref;
			int perSeg = 0;
			(void)perSeg; (void)s0;
			for (auto& s : segments) {
				int n = (int)std::ceil(s->GetLength() / 0.02) + 1;
				for (int k = 0; k <= n; ++k)
					ref.push_back(s->Interpolate((double)k / n));
			}
			size_t j = 0;
			for (size_t i = 0; i < path.size() && !ref.empty(); ++i) {
				size_t k = j;
				while (k < ref.size() && !Same(ref[k], path[i], 0.021, 0.021 / p.R + 1e-4))
					++k;
				if (!c.Check(k < ref.size(), "off-path", VF_MSG("pose " << i << " of " << path.size() << " " << Str(path[i]) << " does not follow on the graph search path")))
					break;
				j = k > 0 ? k - 1 : 0;
			}
		}
		// --- C05: the path returned is free of collisions
		for (size_t i = 0; i < path.size(); ++i) {
			double d = w.CellDist(path[i].position), b = w.Border(path[i].position);
			double tol = smooth ? excess * w.res + 1e-4 : tolSafe;
			if (Same(start, goal, 1e-2, 1e-2) && !startOk)
				continue;
			c.Check(b >= (smooth ? -1e-4 : -w.validator->minPathInterpolationDistance / 2 - 1e-3), "path-leaves", VF_MSG("pose " << i << " of " << path.size() << " is " << -b << " outside of the map"));
			if (d >= 0)
				c.Check(d >= R - tol, "path-hits", VF_MSG("pose " << i << " of " << path.size() << " " << Str(path[i]) << " is " << d << " from an obstacle (safe radius " << R << ")"));
			if (smooth)
				c.Check(w.validator->IsStateValid(path[i]), "smoothed-invalid", VF_MSG("pose " << i << " of the smoothed path is invalid"));
		}
		// --- the set of explored paths hangs together
		if (c.rng.P(0.3)) {
			auto explored = planner.GetGraphSearchExploredPathSet();
			c.Max("explored", (long)explored.size());
			for (auto& s : segments)
				c.Check(explored.count(s) == 1, "explored-set", VF_MSG("a segment of the solution is not among the explored ones"));
			int k = 0;
			for (auto& s : explored) {
				if (++k > 60)
					break;
				double dist = 1e300, border = 1e300;
				Clearance(w, *s, dist, border, 0.1);
				c.Check(dist >= R - tolSafe, "explored-hits", VF_MSG("an explored segment comes within " << dist << " of an obstacle (safe radius " << R << ")"));
				c.Check(border >= -w.validator->minPathInterpolationDistance / 2 - 1e-3, "explored-leaves", VF_MSG("an explored segment is " << -border << " outside of the map"));
			}
		}
		if (segments.size() > 1 || !w.occ.empty())
			c.Nontrivial();
		c.Sig(cost);
		return out;
	}

	void PickGoal(Ctx& c, const World& w, const Prm& p, const Pose2d& start, Pose2d& goal, std::string& what)
	{
		auto& r = c.rng;
		what = "free";
		w.FreePose(r, goal);
		double u = r.U();
		if (u < 0.12) { // close to the start: a manoeuvre within one cell
			for (int k = 0; k < 20; ++k) {
				Pose2d g(start.x() + r.U(-0.5, 0.5) * p.sres, start.y() + r.U(-0.5, 0.5) * p.sres, start.theta + r.U(-0.5, 0.5) * p.ares);
				if (w.validator->IsStateValid(g)) {
					goal = g;
					what = "near";
					break;
				}
			}
		} else if (u < 0.16) {
			goal = start;
			what = "same";
		} else if (u < 0.36) { // close enough to be connected at once
			for (int k = 0; k < 20; ++k) {
				Pose2d g(start.x() + r.U(-4, 4), start.y() + r.U(-4, 4), r.U(-M_PI, M_PI));
				if (w.validator->IsStateValid(g)) {
					goal = g;
					what = "close";
					break;
				}
			}
		} else if (u < 0.44) { // headings at the ends of the range
			goal.theta = r.Pick({ M_PI, -M_PI, M_PI - 1e-9, -M_PI + 1e-9, 0.0, M_PI / 2 });
			what = "wrap";
		} else if (u < 0.48 && !w.occ.empty()) {
			auto q = w.occ[r.Next() % w.occ.size()];
			goal.position = Point2d(w.map->GridCellToWorldPosition(q.first, q.second)) + Point2d(w.res / 2, w.res / 2);
			what = "blocked";
		}
	}

	WorldOptions Opt(Ctx& c)
	{
		WorldOptions o;
		o.halfMin = 3;
		o.halfMax = c.thorough ? 10 : 7;
		o.maxObstacles = 6;
		return o;
	}

	Register plan("plan", 3, [](Ctx& c) {
		World w = MakeWorld(c, Opt(c));
		Prm p = RandomPrm(c);
		HybridAStar planner(p.P());
		planner.pathInterpolation = p.interp;
		if (!c.Check(planner.Initialize(w.validator), "initialize", VF_MSG("Initialize failed")))
			return;
		auto sp = planner.GetSmootherParameters();
		c.Check(std::fabs(sp.maxCurvature - 1 / p.R) < 1e-5, "smoother-curvature", VF_MSG("the smoother is given " << sp.maxCurvature << " as maximum curvature for a turning radius of " << p.R));
		if (c.rng.P(0.7)) {
			sp.maxIterations = c.rng.I(0, 200);
			planner.SetSmootherParameters(sp);
		}
		GVD gvd(w.map);
		gvd.Update();
		Pose2d start, goal;
		if (!w.FreePose(c.rng, start))
			return;
		std::string what;
		PickGoal(c, w, p, start, goal, what);
		c.Count("goal:" + what);
		SearchAndCheck(c, w, planner, gvd, p, start, goal);
	});

	// the start is walled in, so that the search has to try everything before it fails
	Register enclosed("enclosed", 1, [](Ctx& c) {
		auto& r = c.rng;
		World w = MakeWorld(c, Opt(c));
		Prm p = RandomPrm(c);
		Pose2d start, goal;
		if (!w.FreePose(r, start))
			return;
		auto ring = makeRef<Obstacle>();
		double a = r.U(2.5, 9), b = r.U(2.5, 9);
		if (r.P(0.3))
			ring->SetShape(makeRef<RegularPolygonShape>(a / 2 + 1, r.I(5, 12)));
		else
			ring->SetShape(makeRef<RectangleShape>(a, b));
		ring->SetPose(Pose2d(start.x() + r.U(-0.3, 0.3), start.y() + r.U(-0.3, 0.3), r.U(-M_PI, M_PI)));
		w.map->AddObstacle(ring);
		w.obstacles.push_back(ring);
		w.Refresh();
		if (!w.validator->IsStateValid(start) || !w.FreePose(r, goal))
			return;
		HybridAStar planner(p.P());
		planner.pathInterpolation = p.interp;
		if (!c.Check(planner.Initialize(w.validator), "initialize", VF_MSG("Initialize failed")))
			return;
		GVD gvd(w.map);
		gvd.Update();
		SearchAndCheck(c, w, planner, gvd, p, start, goal);
		c.Nontrivial();
	});

	struct Answer {
		int status = 0, smoothing = 0, segments = 0, explored = 0, poses = 0;
		double cost = 0;
		double path[3 * 64] = {};
	};

	Answer Describe(HybridAStar& planner, Status st)
	{
		Answer a;
		a.status = (int)st;
		a.smoothing = (int)planner.GetStats().smoothingStatus;
		a.segments = (int)planner.GetGraphSearchPath().size();
		a.explored = (int)planner.GetGraphSearchExploredPathSet().size();
		a.cost = planner.GetGraphSearchOptimalCost();
		auto path = planner.GetPath();
		a.poses = (int)path.size();
		for (size_t i = 0; i < 64 && i < path.size(); ++i) {
			auto& q = path[i * path.size() / std::min<size_t>(64, path.size())];
			a.path[3 * i] = q.x();
			a.path[3 * i + 1] = q.y();
			a.path[3 * i + 2] = q.theta;
		}
		return a;
	}

	/// What a planner that has never been used answers, with the same random numbers:
	/// it runs in a copy of this process.
	bool FreshAnswer(World& w, const Prm& p, const Smoother::Parameters& sp, const Pose2d& start, const Pose2d& goal, Answer& out)
	{
		int fd[2];
		if (pipe(fd) != 0)
			return false;
		pid_t pid = fork();
		if (pid < 0) {
			close(fd[0]);
			close(fd[1]);
			return false;
		}
		if (pid == 0) {
			alarm(100);
			HybridAStar planner(p.P());
			planner.pathInterpolation = p.interp;
			Answer a;
			if (planner.Initialize(w.validator)) {
				planner.SetSmootherParameters(sp);
				planner.SetInitState(start);
				planner.SetGoalState(goal);
				auto st = planner.SearchPath();
				a = Describe(planner, st);
			}
			ssize_t k = write(fd[1], &a, sizeof a);
			_exit(k == (ssize_t)sizeof a ? 0 : 1);
		}
		close(fd[1]);
		size_t got = 0;
		while (got < sizeof out) {
			ssize_t k = read(fd[0], (char*)&out + got, sizeof out - got);
			if (k < 0 && errno == EINTR)
				continue;
			if (k <= 0)
				break;
			got += k;
		}
		close(fd[0]);
		int status = 0;
		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) { }
		return got == sizeof out && WIFEXITED(status) && WEXITSTATUS(status) == 0;
	}

	// several searches with one planner, while the map changes
	Register reuse("reuse", 2, [](Ctx& c) {
		auto& r = c.rng;
		World w = MakeWorld(c, Opt(c));
		Prm p = RandomPrm(c);
		HybridAStar planner(p.P());
		planner.pathInterpolation = p.interp;
		if (!c.Check(planner.Initialize(w.validator), "initialize", VF_MSG("Initialize failed")))
			return;
		auto sp = planner.GetSmootherParameters();
		sp.maxIterations = r.P(0.4) ? 0 : r.I(0, 100);
		planner.SetSmootherParameters(sp);
		int rounds = r.I(2, 4);
		for (int k = 0; k < rounds && !c.Failed(); ++k) {
			if (k > 0 && r.P(0.1)) { // an initialisation which fails: nothing is found until one succeeds
				c.Check(!planner.Initialize(nullptr), "initialize-null", VF_MSG("a null validator is accepted"));
				c.Check(planner.SearchPath() == Status::Failure && planner.GetPath().empty() && planner.GetGraphSearchPath().empty() && planner.GetGraphSearchExploredPathSet().empty() && std::isinf(planner.GetGraphSearchOptimalCost()) && planner.GetStats().graphSearchStatus == Status::Failure && planner.GetStats().smoothingStatus < 0,
					"spoiled", VF_MSG("after a failed initialisation, a path of " << planner.GetPath().size() << " poses and " << planner.GetGraphSearchPath().size() << " segments is returned"));
				c.Check(planner.Initialize(w.validator), "initialize", VF_MSG("Initialize failed after a failed one"));
				c.desc << " spoiled";
				c.Count("spoiled");
			}
			if (k > 0 && r.P(0.1)) { // another map
				w = MakeWorld(c, Opt(c));
				c.Check(planner.Initialize(w.validator), "initialize", VF_MSG("Initialize failed with another map"));
				c.Count("another-map");
			}
			if (k > 0 && r.P(0.15)) { // what the user can set at any time
				w.validator->minSafeRadius = (float)r.Pick({ 0.3, 0.5, 0.8, 1.0 });
				p.interp = (float)r.Pick({ 0.05, 0.1, 0.3, 1.0 });
				planner.pathInterpolation = p.interp;
				sp = planner.GetSmootherParameters();
				sp.maxIterations = r.P(0.4) ? 0 : r.I(0, 100);
				planner.SetSmootherParameters(sp);
				c.desc << " safe radius " << w.validator->minSafeRadius << " interp " << p.interp;
				c.Count("settings-changed");
			}
			if (k > 0 && r.P(0.6)) {
				if (!w.obstacles.empty() && r.P(0.4)) {
					size_t i = r.Next() % w.obstacles.size();
					w.map->RemoveObstacle(w.obstacles[i]);
					w.obstacles.erase(w.obstacles.begin() + i);
					c.desc << " -obstacle";
				} else {
					MapSpec m { w.map, w.res, w.ub.x() - w.lb.x(), w.ub.y() - w.lb.y(), w.x0, w.y0, w.rows, w.cols };
					auto ob = makeRef<Obstacle>();
					auto s = RandomShape(r, r.U(0.1, 0.5) * std::max(w.ub.x(), w.ub.y()));
					ob->SetShape(s.shape);
					ob->SetPose(maps::RandomPose(r, m, 0.05));
					if (w.map->AddObstacle(ob))
						w.obstacles.push_back(ob);
					c.desc << " +obstacle";
				}
				w.Refresh();
			}
			GVD gvd(w.map);
			gvd.Update();
			Pose2d start, goal;
			if (!w.FreePose(r, start))
				return;
			std::string what;
			PickGoal(c, w, p, start, goal, what);
			c.Count("goal:" + what);
			Answer fresh;
			bool compare = p.voro == 0 && FreshAnswer(w, p, planner.GetSmootherParameters(), start, goal, fresh);
			SearchAndCheck(c, w, planner, gvd, p, start, goal);
			c.Count("searches");
			if (compare) {
				Answer now = Describe(planner, planner.GetStats().graphSearchStatus);
				c.Count(k > 0 ? "compared-with-fresh" : "compared-first");
				c.Check((now.status >= 0) == (fresh.status >= 0), "fresh-status", VF_MSG("search " << k << " ends with " << now.status << ", with a new planner " << fresh.status));
				c.Check(now.cost == fresh.cost || std::fabs(now.cost - fresh.cost) <= 1e-9 * std::fabs(fresh.cost), "fresh-cost", VF_MSG("search " << k << " finds cost " << now.cost << ", a new planner " << fresh.cost));
				c.Check(now.segments == fresh.segments && now.explored == fresh.explored, "fresh-search", VF_MSG("search " << k << ": " << now.segments << " segments out of " << now.explored << ", a new planner " << fresh.segments << " out of " << fresh.explored));
				if (sp.maxIterations == 0 || k == 0 || (now.smoothing < 0 && fresh.smoothing < 0)) {
					bool same = now.poses == fresh.poses;
					for (int j = 0; j < 3 * 64; ++j)
						same = same && std::fabs(now.path[j] - fresh.path[j]) <= 1e-6;
					c.Check(same, "fresh-path", VF_MSG("search " << k << " returns another path (" << now.poses << " poses) than a new planner (" << fresh.poses << ")"));
				}
			}
		}
	});

	Register uninit("uninitialised", 1, [](Ctx& c) {
		HybridAStar planner;
		c.Sig(c.rng.I(0, 1 << 30));
		c.Nontrivial();
		planner.SetInitState(Pose2d(0, 0, 0));
		planner.SetGoalState(Pose2d(1, 0, 0));
		c.Check(planner.SearchPath() == Status::Failure && planner.GetPath().empty(), "uninitialised", VF_MSG("a planner that was not initialised succeeds"));
		c.Check(!planner.Initialize(nullptr), "initialize-null", VF_MSG("a null validator is accepted"));
		c.Check(planner.SearchPath() == Status::Failure && planner.GetPath().empty(), "uninitialised", VF_MSG("a planner that was not initialised succeeds"));
	});
}
