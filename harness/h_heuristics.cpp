// C16: the heuristics of the hybrid search against an independent Dijkstra and Reeds-Shepp reference.
#include "maps.h"
#include "rsref.h"
#include "algo/heuristics.h"
#include "geometry/reeds_shepp.h"
using namespace maps;
using vf::Ctx;
using vf::Register;

namespace {
	struct Combined : AStarCombinedHeuristic<Pose2d> {
		void Goal(const Pose2d& g) { SetGoal(g); }
	};

	/// Optimal Reeds-Shepp cost from a pose to the origin.
	double RefCost(double x, double y, double th, double R, double rev, double fwd, double sw)
	{
		// goal seen from the pose
		double gx = -(x * std::cos(th) + y * std::sin(th)), gy = -(-x * std::sin(th) + y * std::cos(th));
		double best = 1e300;
		for (auto& w : rsref::Words(gx / R, gy / R, rsref::Wrap(-th)))
			best = std::min(best, rsref::Cost(w, R, rev, fwd, sw));
		// With asymmetric costs, words with arcs longer than half a turn can be cheaper: the
		// reference does not have them, the solver (judged by C08) does.
		auto path = ReedsShepp::Solver::GetOptimalPath(Pose2d(x, y, th), Pose2d(0, 0, 0), R, rev, fwd, sw);
		return std::min(best, (double)path.ComputeCost(R, rev, fwd, sw));
	}

	Register nonholo("nonholonomic", 1, [](Ctx& c) {
		auto& r = c.rng;
		double most = r.Rare(0.01) ? 20 : 5; // now and then a large table
		double hx = r.U(0.6, most), hy = r.U(0.6, most);
		double sres = r.Pick({ 0.5, 1.0, 0.7, 2.0 }), ares = r.Pick({ 0.3, 0.5, 0.7, M_PI / 8, 1.0, 0.41 });
		double R = r.U(0.5, 4), rev = r.Pick({ 1.0, 1.0, 2.0, 0.5, 1.5 }), fwd = r.Pick({ 1.0, 1.0, 1.7, 0.6 }), sw = r.Pick({ 0.0, 0.0, 1.0, 0.3 });
		std::array<Pose2d, 2> bounds { Pose2d(-hx, -hy, -M_PI), Pose2d(hx, hy, M_PI) };
		auto h = NonHolonomicHeuristic::Build(bounds, sres, ares, R, rev, fwd, sw);
		Combined both;
		both.Add(h);
		Pose2d goal(r.U(-3, 3), r.U(-3, 3), r.U(-M_PI, M_PI));
		both.Goal(goal);
		c.desc << "bounds +-" << hx << "," << hy << " res " << sres << "," << ares << " R " << R << " rev " << rev << " fwd " << fwd << " switch " << sw << " goal " << goal.x() << "," << goal.y() << "," << goal.theta;
		c.Sig(hx); c.Sig(goal.theta); c.Sig(R);
		c.Nontrivial();
		double v0 = both.GetHeuristicValue(goal);
		c.Check(std::fabs(v0) < 1e-9, "zero-at-goal", VF_MSG("value at the goal " << v0));
		for (int k = 0; k < 8; ++k) { // neither is it far from zero next to the goal
			Pose2d near(goal.x() + r.U(-1e-7, 1e-7), goal.y() + r.U(-1e-7, 1e-7), goal.theta + r.U(-1e-7, 1e-7));
			double v = h->GetHeuristicValue(near);
			c.Check(v < 1e-5, "zero-near-goal", VF_MSG("value " << v << " next to the goal"));
		}
		double minMult = std::min(rev, fwd);
		int angles = (int)std::ceil(2 * M_PI / ares - 1e-9);
		for (int k = 0; k < 30; ++k) {
			double far = r.P(0.2) ? 2.5 : 0.9;
			// state in the frame of the goal
			double x = r.U(-hx, hx) * far, y = r.U(-hy, hy) * far, th = r.U(-M_PI, M_PI);
			if (r.P(0.1)) th = r.Pick({ M_PI, -M_PI, 0.0, M_PI / 2, -M_PI / 2 });
			if (r.P(0.1)) { x = std::round(x / sres) * sres; y = std::round(y / sres) * sres; }
			double ct = std::cos(goal.theta), st = std::sin(goal.theta);
			Pose2d state(goal.x() + ct * x - st * y, goal.y() + st * x + ct * y, goal.theta + th);
			double got = h->GetHeuristicValue(state);
			c.Check(got == both.GetHeuristicValue(state), "combined", VF_MSG(""));
			if (!c.Check(std::isfinite(got) && got >= 0, "finite", VF_MSG("value " << got << " at " << x << "," << y << "," << th)))
				continue;
			bool inTable = std::fabs(x) < hx - sres && std::fabs(y) < hy - sres;
			bool outTable = std::fabs(x) > hx + 2 * sres || std::fabs(y) > hy + 2 * sres;
			if (inTable) {
				// the table holds exact costs at the nodes of a regular lattice around the goal
				double lo = 1e300, hi = -1e300;
				double t = th < 0 ? th + 2 * M_PI : th;
				const double e = 1e-7;
				std::set<long> xs { std::lround(std::floor(x / sres + e)), std::lround(std::ceil(x / sres - e)) }, ys { std::lround(std::floor(y / sres + e)), std::lround(std::ceil(y / sres - e)) };
				std::set<long> ts { std::lround(std::floor(t / ares + e)), std::lround(std::ceil(t / ares - e)) };
				if (t > 2 * M_PI - 1e-6) ts.insert(0);
				for (long i : xs)
					for (long j : ys)
						for (long a : ts) {
							double v = RefCost(i * sres, j * sres, (a >= angles ? 0 : a) * ares, R, rev, fwd, sw);
							lo = std::min(lo, v);
							hi = std::max(hi, v);
						}
				c.Check(got >= lo - 1e-4 * (1 + lo) && got <= hi + 1e-4 * (1 + hi), "table-value", VF_MSG("state " << x << "," << y << "," << th << " in the goal frame: " << got << ", optimal Reeds-Shepp costs around it " << lo << ".." << hi));
				c.Count("in-table");
			} else {
				double ref = RefCost(x, y, th, R, rev, fwd, sw);
				double low = minMult * std::hypot(x, y);
				if (outTable) {
					c.Check(got <= ref + 1e-6 * (1 + ref), "far-admissible", VF_MSG("state " << x << "," << y << "," << th << ": " << got << " but the optimal cost is " << ref));
					c.Check(got >= low - 1e-6 * (1 + low), "far-euclidean", VF_MSG("state " << x << "," << y << "," << th << ": " << got << " is less than the straight line " << low));
					c.Count("out-of-table");
				}
			}
			if (c.Failed())
				return;
		}
	});

	Register obstacles("obstacles", 1, [](Ctx& c) {
		auto& r = c.rng;
		bool large = r.Rare(0.01);
		MapSpec m = large ? RandomMap(r, 30, 280) : RandomMap(r, 2, 30);
		double rev = r.Pick({ 1.0, 1.0, 2.0, 0.5, 0.2 }), fwd = r.Pick({ 1.0, 1.0, 3.0, 0.7 });
		double mult = std::min(rev, fwd);
		auto h = makeRef<ObstaclesHeuristic>(m.map, rev, fwd);
		Combined both;
		both.Add(h);
		c.desc << m.rows << "x" << m.cols << " res " << m.res << " rev " << rev << " fwd " << fwd;
		c.Sig(m.width); c.Sig(m.x0);
		double size = (large ? r.U(0.02, 0.3) : r.U(0.1, 0.8)) * std::max(m.width, m.height);
		std::vector<Ref<Obstacle>> obs;
		int rounds = r.I(1, 4);
		for (int round = 0; round < rounds; ++round) { // the map changes between searches
			int n = r.I(0, large ? 40 : 3);
			for (int i = 0; i < n; ++i) {
				if (!obs.empty() && r.P(0.35)) {
					m.map->RemoveObstacle(obs.back());
					obs.pop_back();
					continue;
				}
				auto o = makeRef<Obstacle>();
				o->SetShape(RandomShape(r, size).shape);
				o->SetPose(RandomPose(r, m, 0.1));
				m.map->AddObstacle(o);
				obs.push_back(o);
			}
			m.map->Update();
			Pose2d goal = RandomPose(r, m, r.P(0.1) ? 0.3 : -0.02);
			both.Goal(goal);
			h->Update(goal);
			// independent shortest distance on the grid
			auto occ = [&](int i, int j) { return m.map->IsOccupied({ i, j }); };
			std::vector<double> D((size_t)m.rows * m.cols, 1e300);
			int gr = (int)std::floor((goal.x() - m.x0 + m.width / 2) / m.res), gc = (int)std::floor((goal.y() - m.y0 + m.height / 2) / m.res);
			bool inside = gr >= 0 && gc >= 0 && gr < m.rows && gc < m.cols;
			if (inside) {
				std::set<std::pair<double, int>> q;
				D[(size_t)gr * m.cols + gc] = 0;
				q.insert({ 0.0, gr * m.cols + gc });
				while (!q.empty()) {
					auto [d, id] = *q.begin();
					q.erase(q.begin());
					int i = id / m.cols, j = id % m.cols;
					for (int a = -1; a <= 1; ++a)
						for (int b = -1; b <= 1; ++b) {
							int x = i + a, y = j + b;
							if ((!a && !b) || x < 0 || y < 0 || x >= m.rows || y >= m.cols || occ(x, y))
								continue;
							if (a && b && occ(i, y) && occ(x, j))
								continue;
							double nd = d + (a && b ? std::sqrt(2.0) : 1.0);
							double& o = D[(size_t)x * m.cols + y];
							if (nd < o - 1e-12) {
								q.erase({ o, x * m.cols + y });
								o = nd;
								q.insert({ nd, x * m.cols + y });
							}
						}
				}
			}
			int reach = 0;
			for (int i = 0; i < m.rows; ++i)
				for (int j = 0; j < m.cols; ++j) {
					Pose2d s(m.x0 - m.width / 2 + (i + r.U(0.05, 0.95)) * m.res, m.y0 - m.height / 2 + (j + r.U(0.05, 0.95)) * m.res, r.U(-3, 3));
					double got = both.GetHeuristicValue(s);
					double low = mult * (goal.position - s.position).norm();
					double d = D[(size_t)i * m.cols + j];
					double tol = 1e-4 * (1 + low);
					if (d > 1e200) {
						c.Check(std::fabs(got - low) <= tol, "unreachable", VF_MSG("cell " << i << "," << j << " cannot reach the goal: " << got << " expected " << low));
						c.Count("unreachable-cells");
						continue;
					}
					++reach;
					double grid = d * m.res * mult, slack = std::sqrt(2.0) * m.res * std::max(1.0, mult);
					tol += 1e-4 * grid;
					c.Check(got <= std::max(low, grid) + tol, "too-large", VF_MSG("cell " << i << "," << j << ": " << got << " but the shortest grid distance costs " << grid << " and the straight line " << low));
					c.Check(got >= std::max(low, grid - slack) - tol, "too-small", VF_MSG("cell " << i << "," << j << ": " << got << " but the shortest grid distance costs " << grid << " and the straight line " << low));
					if (grid - slack > low)
						c.Count("detours");
				}
			if (r.P(0.2)) {
				h->Visualize("heuristic.ppm");
				vf::Image img;
				if (c.Check(img.Read("heuristic.ppm"), "image-format", VF_MSG("not a binary pixmap of the announced size"))
					&& c.Check(img.width == m.rows && img.height == m.cols, "image-size", VF_MSG(img.width << "x" << img.height << " for a map of " << m.rows << "x" << m.cols))) {
					// grey, darker with the distance to the goal, black where the goal cannot be reached
					double far = 0;
					for (int i = 0; i < m.rows; ++i)
						for (int j = 0; j < m.cols; ++j)
							if (D[(size_t)i * m.cols + j] < 1e290) far = std::max(far, D[(size_t)i * m.cols + j]);
					for (int i = 0; i < m.rows; ++i)
						for (int j = 0; j < m.cols; ++j) {
							auto p = img.At(i, m.cols - 1 - j);
							double d = D[(size_t)i * m.cols + j];
							c.Check(p[0] == p[1] && p[1] == p[2], "image-grey", VF_MSG("cell " << i << "," << j << ": " << p[0] << "," << p[1] << "," << p[2]));
							double want = d < 1e290 && far > 0 ? 255 * (1 - d / far) : 0;
							c.Check(std::fabs(p[0] - want) <= 2, "image-brightness", VF_MSG("cell " << i << "," << j << " at " << d << " of at most " << far << " is drawn as " << p[0]));
							c.Count("pixels");
						}
				}
			}
			for (int k = 0; k < 5; ++k) { // outside the map
				Pose2d s(m.x0 + r.U(0.6, 2) * m.width + 2 * m.res, m.y0 + r.U(-2, 2) * m.height, 0);
				double low = mult * (goal.position - s.position).norm(), got = both.GetHeuristicValue(s);
				c.Check(std::fabs(got - low) <= 1e-4 * (1 + low), "outside", VF_MSG(got << " expected " << low));
			}
			c.Sig(reach);
			if (reach > 1 && !obs.empty())
				c.Nontrivial();
			if (c.Failed())
				return;
		}
	});

	// ------------------------------------------------------------------ combining and adapting
	struct CombinedInt : AStarCombinedHeuristic<int> {
		void Goal(int g) { SetGoal(g); }
	};

	struct TableInt : AStarConcreteHeuristic<int> {
		std::function<double(int, int)> fn;
		TableInt(std::function<double(int, int)> f) : fn(std::move(f)) { m_goal = 0; }
		double GetHeuristicValue(const int& s) override { return fn(s, m_goal); }
	};

	Register combined("combined", 1, [](Ctx& c) {
		auto& r = c.rng;
		int n = r.I(1, 5);
		std::vector<std::function<double(int, int)>> fn;
		std::vector<Ref<AStarHeuristic<int>>> parts;
		for (int k = 0; k < n; ++k) {
			int a = r.I(1, 30), m = r.I(2, 17);
			double w = r.U(0, 3), o = r.P(0.2) ? -r.U(0, 5) : 0.0;
			fn.push_back([=](int s, int g) { return o + w * (double)((unsigned)(s * a + g * 7) % (unsigned)m); });
			if (r.P(0.3)) {
				// the same through an adapter: the search works on s, the heuristic on 3 s + 1
				auto inner = makeRef<TableInt>([f = fn.back()](const int& s, const int& g) { return f((s - 1) / 3, (g - 1) / 3); });
				auto map = [](const int& s) { return 3 * s + 1; };
				parts.push_back(makeRef<AStarHeuristicAdapter<int, int, decltype(map)>>(inner, map));
				c.Count("adapted");
			} else
				parts.push_back(makeRef<TableInt>([f = fn.back()](const int& s, const int& g) { return f(s, g); }));
			c.Sig(w);
		}
		CombinedInt all;
		if (n == 2 && r.P(0.7))
			all.Add(parts[0], parts[1]);
		else if (n == 3 && r.P(0.7))
			all.Add(parts[0], parts[1], parts[2]);
		else if (n == 4 && r.P(0.5))
			all.Add(parts[0], parts[1], parts[2], parts[3]);
		else
			for (auto& p : parts)
				all.Add(p);
		c.desc << n << " heuristics";
		if (n > 1)
			c.Nontrivial();
		for (int round = 0; round < 3; ++round) {
			int goal = r.I(0, 40);
			all.Goal(goal);
			for (int s = 0; s < 40; ++s) {
				double want = -1e300;
				for (auto& f : fn)
					want = std::max(want, f(s, goal));
				double got = all.GetHeuristicValue(s);
				c.Check(got == want, "combined-maximum", VF_MSG("combination of " << n << " heuristics at " << s << " for goal " << goal << ": " << got << " expected " << want));
			}
		}
	});
}
