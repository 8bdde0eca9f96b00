// C17: the path smoother.
#include "world.h"
#include "algo/smoother.h"
#include "paths/path_reeds_shepp.h"
#include "state_validator/gvd.h"
using namespace maps;
using vf::Ctx;
using vf::Register;

namespace {
	struct Case {
		World w;
		Ref<GVD> gvd;
		Smoother s;
		std::vector<Pose2d> path;
		std::unordered_set<int> cusps;
		float maxCurvature = 1;
	};

	std::vector<Pose2d> RandomPath(Ctx& c, const World& w, std::unordered_set<int>& cusps, bool large = false)
	{
		auto& r = c.rng;
		std::vector<Pose2d> path;
		int kind = r.I(0, 3);
		Pose2d a, b;
		if (!w.FreePose(r, a) || !w.FreePose(r, b))
			return path;
		if (kind == 0) { // straight line
			int n = r.I(1, large ? 700 : 60);
			for (int i = 0; i <= n; ++i)
				path.push_back(Pose2d(Point2d(a.position + (b.position - a.position) * ((double)i / n)), a.theta));
		} else if (kind == 1) { // noisy line
			int n = r.I(4, large ? 500 : 60);
			double noise = r.U(0.01, 0.3);
			for (int i = 0; i <= n; ++i) {
				Point2d p = a.position + (b.position - a.position) * ((double)i / n);
				if (i > 0 && i < n)
					p += Point2d(r.U(-noise, noise), r.U(-noise, noise));
				path.push_back(Pose2d(p, r.U(-3, 3)));
			}
			int k = r.I(0, large ? 100 : 3);
			for (int i = 0; i < k; ++i)
				cusps.insert(r.I(0, n));
		} else { // a sampled Reeds-Shepp path
			double R = r.U(0.5, 3), step = large ? 0.03 : r.Pick({ 0.1, 0.2, 0.4 });
			auto seg = ReedsShepp::Solver::GetShortestPath(a, b, R);
			PathReedsShepp p(a, seg, R);
			std::set<double> ratios = p.GetCuspPointRatios(), cuspRatios = ratios;
			for (double l = 0; l < p.GetLength(); l += step)
				ratios.insert(l / p.GetLength());
			ratios.insert(1.0);
			for (double q : ratios) {
				if (cuspRatios.count(q))
					cusps.insert((int)path.size());
				path.push_back(p.Interpolate(q));
			}
		}
		return path;
	}

	bool Prepare(Ctx& c, Case& k, bool large = false)
	{
		WorldOptions o;
		o.halfMin = 3;
		o.halfMax = large ? 16 : 8;
		k.w = MakeWorld(c, o);
		k.gvd = makeRef<GVD>(k.w.map);
		k.gvd->Update();
		k.maxCurvature = (float)c.rng.U(0.3, 2);
		c.Check(k.s.Initialize(k.w.validator, k.gvd, k.maxCurvature), "initialize", VF_MSG("Initialize returned false"));
		k.path = RandomPath(c, k.w, k.cusps, large);
		c.desc << " path " << k.path.size() << " cusps " << k.cusps.size();
		return !k.path.empty();
	}

	void CheckResult(Ctx& c, Case& k, const std::vector<Pose2d>& in, Smoother::Status st)
	{
		auto& out = k.s.GetPath();
		if (!c.Check(out.size() == in.size(), "same-size", VF_MSG(out.size() << " poses for " << in.size())))
			return;
		bool finite = true, valid = true;
		for (size_t i = 0; i < out.size(); ++i) {
			finite = finite && std::isfinite(out[i].x()) && std::isfinite(out[i].y());
			valid = valid && k.w.validator->IsStateValid(out[i]);
			bool fixed = i == 0 || i + 1 == in.size() || k.cusps.count((int)i);
			if (fixed)
				c.Check((out[i].position - in[i].position).norm() == 0, "fixed-point", VF_MSG("pose " << i << " of " << in.size() << " (an end or a cusp) moved by " << (out[i].position - in[i].position).norm()));
			c.Check(out[i].theta == in[i].theta, "heading", VF_MSG("heading of pose " << i << " changed from " << in[i].theta << " to " << out[i].theta));
			if (fixed && i > 0)
				c.Count("fixed-points");
		}
		if (st >= 0) {
			c.Check(finite, "finite", VF_MSG("status " << st << " but the path is not finite"));
			c.Check(valid, "success-unsafe", VF_MSG("status " << st << " but the path goes through an invalid state"));
			for (auto& p : out) {
				double d = k.w.CellDist(p.position);
				if (d >= 0 && finite)
					c.Check(d >= k.w.validator->minSafeRadius - 0.3 * k.w.res - 1e-4, "success-collides", VF_MSG("status " << st << " but pose " << p.position.transpose() << " is " << d << " from an obstacle"));
			}
		} else
			c.Check(!valid || !finite, "failure-safe", VF_MSG("status " << st << " but every pose of the result is valid"));
		c.Check(st == Smoother::MaxIteration || st == Smoother::StepTolerance || st == Smoother::PathSize || st == Smoother::Failure || st == Smoother::Collision, "status", VF_MSG(st));
		c.Check((st == Smoother::PathSize) == (in.size() < 5 && valid), "path-size", VF_MSG("status " << st << " for " << in.size() << " poses"));
		c.Count(std::string("status:") + std::to_string((int)st));
		if (in.size() < 5)
			for (size_t i = 0; i < in.size(); ++i)
				c.Check((out[i].position - in[i].position).norm() == 0, "short-path", VF_MSG(i));
	}

	Register result("result", 3, [](Ctx& c) {
		auto& r = c.rng;
		Case k;
		bool large = r.Rare(0.005);
		if (!Prepare(c, k, large))
			return;
		auto p = k.s.GetParameters();
		c.Check(std::fabs(p.maxCurvature - k.maxCurvature) < 1e-6, "max-curvature", VF_MSG(p.maxCurvature));
		if (r.P(0.5)) {
			p.maxIterations = r.I(0, 400);
			p.smoothWeight = (float)r.U(0, 0.5);
			p.voronoiWeight = (float)r.U(0, 0.1);
			p.collisionWeight = (float)r.U(0, 0.5);
			p.curvatureWeight = (float)r.U(0, 0.5);
			p.pathWeight = (float)r.U(0, 0.3);
			k.s.SetParameters(p);
		}
		int rounds = r.I(1, 2);
		for (int i = 0; i < rounds; ++i) { // results do not depend on what was smoothed before
			auto st = k.s.Smooth(k.path, k.cusps);
			CheckResult(c, k, k.path, st);
			auto first = k.s.GetPath();
			Smoother fresh;
			fresh.Initialize(k.w.validator, k.gvd, k.maxCurvature);
			fresh.SetParameters(k.s.GetParameters());
			auto st2 = fresh.Smooth(k.path, k.cusps);
			bool same = st == st2 && first.size() == fresh.GetPath().size();
			for (size_t j = 0; same && j < first.size(); ++j)
				same = (first[j].position - fresh.GetPath()[j].position).norm() == 0 || !std::isfinite(first[j].x());
			c.Check(same, "history", VF_MSG("status " << st << " and " << st2 << " from a fresh smoother"));
			if (k.path.size() > 5)
				c.Nontrivial();
			k.cusps.clear();
			k.path = RandomPath(c, k.w, k.cusps, large);
			if (k.path.empty() || c.Failed())
				return;
		}
	});

	/// Objective of the class documentation, written independently.
	double Objective(const Case& k, const Smoother::Parameters& p, const std::vector<Point2d>& x, const std::vector<Point2d>& ref, const std::set<int>& moving, const std::vector<Point2d>& obs, const std::vector<Point2d>& edge, const std::vector<int>& has, bool& singular)
	{
		double f = 0;
		int n = (int)x.size();
		double unsafe = k.w.validator->minSafeRadius * (1 + p.collisionRatio);
		for (int i : moving) {
			f += 0.5 * p.pathWeight * (x[i] - ref[i]).squaredNorm();
			if (has[i] & 1) {
				double d = (x[i] - obs[i]).norm();
				if (d < unsafe)
					f += 0.5 * p.collisionWeight * (d - unsafe) * (d - unsafe);
				if ((has[i] & 2) && d < k.gvd->dMax && p.voronoiWeight > 0) {
					double v = (x[i] - edge[i]).norm();
					double a = k.gvd->alpha, m = k.gvd->dMax;
					f += p.voronoiWeight * (a / (a + d)) * (v / (d + v)) * (d - m) * (d - m) / (m * m);
					if (v < 1e-3)
						singular = true;
				}
				if (d < 1e-3 || std::fabs(d - unsafe) < 1e-4)
					singular = true;
			}
			Point2d a = x[i] - x[i - 1], b = x[i + 1] - x[i];
			double phi = std::acos(std::clamp(a.dot(b) / (a.norm() * b.norm()), -1.0, 1.0));
			double kappa = phi / a.norm();
			double size = (1 / a.norm() + 1 / b.norm() + kappa) * 2 / a.norm(); // how fast the curvature may change
			if (!(a.norm() > 1e-2) || !(b.norm() > 1e-2) || std::fabs(kappa - p.maxCurvature) < 1e-3 + 4e-5 * size || (kappa > p.maxCurvature && (phi < 0.02 || phi > M_PI - 0.05)))
				singular = true;
			if (kappa > p.maxCurvature)
				f += 0.5 * p.curvatureWeight * (kappa - p.maxCurvature) * (kappa - p.maxCurvature);
		}
		(void)n;
		return f;
	}

	Register gradient("gradient", 2, [](Ctx& c) {
		auto& r = c.rng;
		Case k;
		if (!Prepare(c, k) || k.path.size() < 6 || k.path.size() > 80)
			return;
		auto p = k.s.GetParameters();
		p.maxIterations = 1;
		int only = r.I(0, 6);
		p.pathWeight = (only == 0 || only > 4) ? 0.3f : 0;
		p.smoothWeight = (only == 1 || only > 4) ? 0.4f : 0;
		p.collisionWeight = (only == 2 || only > 4) ? 0.2f : 0;
		p.voronoiWeight = (only == 3 || only > 4) ? 0.2f : 0;
		p.curvatureWeight = (only == 4 || only > 4) ? 0.4f : 0;
		p.learningRate = (float)r.Pick({ 0.01, 0.05 });
		// the map may also be one on which there is nothing to avoid
		k.s.SetParameters(p);
		int n = (int)k.path.size();
		std::set<int> moving; // two poses away from every end and cusp
		for (int i = 2; i < n - 2; ++i) {
			bool free = true;
			for (int q : k.cusps)
				free = free && std::abs(q - i) > 2;
			if (free)
				moving.insert(i);
		}
		if (moving.empty())
			return;
		// The path term is relative to the path given, so that one step from it has no path
		// term; smooth once and look at how the second step differs.
		std::vector<Point2d> x, obs(n), edge(n);
		std::vector<int> has(n, 0);
		for (auto& q : k.path)
			x.push_back(q.position);
		for (int i = 0; i < n; ++i) {
			if (!k.w.map->IsInsideMap(x[i]))
				continue;
			auto cell = k.w.map->WorldPositionToGridCell(x[i]);
			auto o = k.gvd->GetNearestObstacleCell(cell);
			auto e = k.gvd->GetNearestVoronoiEdgeCell(cell);
			if (o.IsValid()) { has[i] |= 1; obs[i] = k.w.map->GridCellToWorldPosition(o); }
			if (e.IsValid()) { has[i] |= 2; edge[i] = k.w.map->GridCellToWorldPosition(e); }
		}
		bool singular = false;
		Objective(k, p, x, x, moving, obs, edge, has, singular);
		if (singular) {
			c.Count("singular");
			return;
		}
		k.s.Smooth(k.path, k.cusps);
		auto& out = k.s.GetPath();
		c.Nontrivial();
		c.Sig(only);
		c.Count("term:" + std::to_string(only));
		for (int i = 1; i < n - 1; ++i) {
			Point2d g(0, 0);
			for (int a = 0; a < 2; ++a) {
				const double h = 1e-5;
				auto y = x;
				bool dummy = false;
				y[i][a] += h;
				double up = Objective(k, p, y, x, moving, obs, edge, has, dummy);
				y[i][a] -= 2 * h;
				double dn = Objective(k, p, y, x, moving, obs, edge, has, dummy);
				g[a] = (up - dn) / (2 * h);
			}
			if (moving.count(i)) // smoothness: sum of the squared second differences
				g += p.smoothWeight * (x[i - 2] - 4 * x[i - 1] + 6 * x[i] - 4 * x[i + 1] + x[i + 2]);
			Point2d step = out[i].position - x[i], want = -p.learningRate * g;
			double tol = 2e-3 * want.norm() + 1e-5 * p.learningRate + 1e-9;
			for (int q = i - 1; q <= i + 1; ++q) { // the curvature is computed in single precision from the cosine of the turn
				if (!moving.count(q))
					continue;
				Point2d a = x[q] - x[q - 1], b = x[q + 1] - x[q];
				double phi = std::acos(std::clamp(a.dot(b) / (a.norm() * b.norm()), -1.0, 1.0)), kappa = phi / a.norm();
				if (kappa < p.maxCurvature - 1e-2)
					continue;
				double sn = std::sin(phi), eps = 2.4e-7;
				double dkappa = eps / sn / a.norm() + eps * kappa, size = (1 / a.norm() + 1 / b.norm() + kappa) * 2 / a.norm();
				tol += p.learningRate * p.curvatureWeight * size * (dkappa + std::fabs(kappa - p.maxCurvature) * eps / (sn * sn));
			}
			if (g.norm() > 1e-4)
				c.Count("gradients");
			if (!c.Check((step - want).norm() <= tol, "descent-step", VF_MSG("pose " << i << " of " << n << " moved by " << step.transpose() << " expected " << want.transpose() << " (weights path " << p.pathWeight << " smooth " << p.smoothWeight << " collision " << p.collisionWeight << " voronoi " << p.voronoiWeight << " curvature " << p.curvatureWeight << ")")))
				return;
		}
	});

	// many steps at once are the same as one step at a time, and stop when the steps are small
	Register steps("steps", 1, [](Ctx& c) {
		auto& r = c.rng;
		Case k;
		if (!Prepare(c, k) || k.path.size() < 5)
			return;
		auto p = k.s.GetParameters();
		int N = r.I(0, 60);
		p.maxIterations = N;
		p.stepTolerance = (float)r.Pick({ 1e-3, 1e-2, 0.05 });
		k.s.SetParameters(p);
		auto st = k.s.Smooth(k.path, k.cusps);
		auto all = k.s.GetPath();
		p.maxIterations = 1;
		k.s.SetParameters(p);
		auto cur = k.path;
		bool tie = false, stopped = false;
		int done = 0;
		for (int i = 0; i < N && !tie; ++i) {
			k.s.Smooth(cur, k.cusps);
			auto nxt = k.s.GetPath();
			double step = 0;
			for (size_t j = 0; j < cur.size(); ++j)
				step = std::max(step, (nxt[j].position - cur[j].position).norm() / p.learningRate);
			cur = nxt;
			++done;
			if (!std::isfinite(step) || std::fabs(step - p.stepTolerance) < 1e-4 * p.stepTolerance)
				tie = true;
			if (step < p.stepTolerance) {
				stopped = done < N;
				break;
			}
		}
		if (tie) {
			c.Count("ties");
			return;
		}
		c.Nontrivial();
		c.Sig(N);
		double diff = 0;
		for (size_t j = 0; j < cur.size(); ++j)
			diff = std::max(diff, (cur[j].position - all[j].position).norm());
		c.Check(!(diff > 1e-6), "steps-compose", VF_MSG(N << " iterations differ by " << diff << " from " << done << " single ones"));
		if (st >= 0)
			c.Check(st == (stopped ? Smoother::StepTolerance : Smoother::MaxIteration), "stop-reason", VF_MSG("status " << st << " after " << done << " of " << N << " iterations"));
	});

	// descent on the path and smoothness terms never makes the path rougher
	Register descent("descent", 1, [](Ctx& c) {
		auto& r = c.rng;
		Case k;
		if (!Prepare(c, k) || k.path.size() < 5)
			return;
		auto p = k.s.GetParameters();
		p.collisionWeight = p.voronoiWeight = p.curvatureWeight = 0;
		p.smoothWeight = (float)r.U(0.05, 0.5);
		p.pathWeight = r.P(0.5) ? (float)r.U(0.05, 0.5) : 0;
		p.maxIterations = r.I(1, 300);
		k.s.SetParameters(p);
		k.s.Smooth(k.path, k.cusps);
		auto& out = k.s.GetPath();
		auto energy = [&](const std::vector<Pose2d>& x) {
			double e = 0;
			for (size_t i = 1; i + 1 < x.size(); ++i)
				e += 0.5 * p.smoothWeight * (x[i - 1].position - 2 * x[i].position + x[i + 1].position).squaredNorm();
			for (size_t i = 0; i < x.size(); ++i)
				e += 0.5 * p.pathWeight * (x[i].position - k.path[i].position).squaredNorm();
			return e;
		};
		c.Nontrivial();
		double a = energy(k.path), b = energy(out);
		c.Sig(a);
		c.Check(b <= a * (1 + 1e-6) + 1e-9, "energy", VF_MSG("smoothing raised the objective from " << a << " to " << b));
	});

	// repeated poses, steps that are far too large, paths that start outside of the map
	Register hostile("hostile", 1, [](Ctx& c) {
		auto& r = c.rng;
		Case k;
		if (!Prepare(c, k))
			return;
		int dup = r.I(0, 3);
		for (int i = 0; i < dup && !k.path.empty(); ++i) {
			size_t at = r.Next() % k.path.size();
			k.path.insert(k.path.begin() + at, k.path[at]);
			k.cusps.clear();
		}
		if (r.P(0.2) && !k.path.empty())
			k.path[r.Next() % k.path.size()].position = Point2d(r.Pick({ -1e3, 1e3, 1e12 }), r.Pick({ -1e3, 1e3, -1e12 }));
		auto p = k.s.GetParameters();
		p.maxIterations = r.I(1, 120);
		p.learningRate = (float)r.Pick({ 0.05, 1, 10, 1e3 });
		p.curvatureWeight = (float)r.Pick({ 0, 0.5, 100 });
		p.smoothWeight = (float)r.Pick({ 0, 0.5, 100 });
		p.stepTolerance = (float)r.Pick({ 0, 1e-3, 1e6 });
		k.s.SetParameters(p);
		auto st = k.s.Smooth(k.path, k.cusps);
		c.Nontrivial();
		c.Sig(dup);
		c.Count(st >= 0 ? "hostile-success" : "hostile-failure");
		CheckResult(c, k, k.path, st);
	});

	Register uninit("uninitialised", 1, [](Ctx& c) {
		Smoother s;
		c.Nontrivial();
		c.Sig(c.rng.I(0, 1 << 30));
		std::vector<Pose2d> p((size_t)c.rng.I(0, 9), Pose2d(0, 0, 0));
		c.Check(s.Smooth(p) == Smoother::Failure, "uninitialised", VF_MSG("an uninitialised smoother succeeds"));
		c.Check(!s.Initialize(nullptr, nullptr, 1.0f) && s.Smooth(p) == Smoother::Failure, "initialize-null", VF_MSG("null arguments accepted"));
	});
}
