// C07: RRT and RRT* only return trees of motions the validator accepted.
#include "common.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include "paths/path_r2.h"
#include "state_space/state_space_r2.h"
using namespace vf;
using namespace Planner;

namespace {
	/// State space that counts its samples (one per iteration when the goal bias is zero).
	struct CountingSpace : StateSpace<Point2d, 2, double> {
		long samples = 0;
		Rng* rng;
		CountingSpace(const Point2d& lb, const Point2d& ub, Rng* r) : StateSpace(std::array<Point2d, 2>({ lb, ub })), rng(r) { }
		void EnforceBounds(Point2d& s) override { for (int i = 0; i < 2; ++i) s[i] = std::clamp(s[i], bounds[0][i], bounds[1][i]); }
		bool ValidateBounds(const Point2d& s) override { return s[0] >= bounds[0][0] && s[1] >= bounds[0][1] && s[0] <= bounds[1][0] && s[1] <= bounds[1][1]; }
		Point2d SampleUniform() override { samples++; return Point2d(rng->U(bounds[0][0], bounds[1][0]), rng->U(bounds[0][1], bounds[1][1])); }
		Point2d SampleGaussian(const Point2d& m, const Point2d&) override { return m; }
	};

	struct Disk { Point2d c; double r; };

	/// Exact segment/disk validator that remembers which motions it accepted.
	struct SegmentValidator : StateValidator<Point2d, 2, double> {
		std::vector<Disk> disks;
		long asked = 0, accepted = 0;
		std::set<std::array<double, 4>> ok;
		std::set<std::array<double, 2>> ends;
		double refuse = 0; // probability of refusing a motion for no visible reason
		Rng* rng = nullptr;
		using StateValidator::StateValidator;
		using StateValidator::IsPathValid;
		bool IsStateValid(const Point2d& s) override
		{
			for (auto& d : disks) if ((s - d.c).norm() < d.r) return false;
			return true;
		}
		bool IsPathValid(const Path<Point2d>& p, float* last = nullptr) override
		{
			asked++;
			Point2d a = p.GetInitialState(), b = p.GetFinalState(), ab = b - a;
			bool valid = true;
			for (auto& d : disks) {
				double t = ab.squaredNorm() > 0 ? std::clamp((d.c - a).dot(ab) / ab.squaredNorm(), 0.0, 1.0) : 0.0;
				if ((a + t * ab - d.c).norm() < d.r) valid = false;
			}
			if (valid && refuse > 0 && rng->P(refuse)) valid = false;
			if (valid) {
				accepted++;
				ok.insert({ a[0], a[1], b[0], b[1] });
				ends.insert({ b[0], b[1] });
			}
			if (last) *last = valid ? 1.0f : 0.0f;
			return valid;
		}
	};

	template <typename P>
	constexpr bool IsStar = std::is_same_v<P, RRTStarR2>;

	template <typename P>
	void Run(Ctx& c, bool large = false)
	{
		Rng& r = c.rng;
		double w = r.U(2, 20);
		Point2d lb(-w, -w), ub(w, w);
		auto space = makeRef<CountingSpace>(lb, ub, &r);
		auto val = makeRef<SegmentValidator>(space);
		val->rng = &r;
		int nd = r.P(0.2) ? 0 : r.I(1, 8);
		for (int i = 0; i < nd; ++i) val->disks.push_back({ Point2d(r.U(-w, w), r.U(-w, w)), r.U(0.05, 0.35) * w });
		if (r.P(0.3)) val->refuse = r.U(0, 0.5);
		P planner(space, val, makeRef<PathConnectionR2>());
		auto params = planner.GetParameters();
		params.maxIteration = large ? r.I(500, 6000) : r.I(0, 250);
		params.maxNumberTreeNode = r.P(0.7) ? 10000 : large ? r.I(200, 3000) : r.I(1, 60);
		params.maxConnectionDistance = w * (large ? r.U(0.005, 0.1) : r.U(0.05, 0.8));
		params.goalBias = r.P(0.5) ? 0.0 : r.U(0, 0.4);
		planner.SetParameters(params);
		int rounds = r.I(1, 3);
		c.desc << "w=" << w << " disks=" << nd << " refuse=" << val->refuse << " iter=" << params.maxIteration << " nodes=" << params.maxNumberTreeNode << " step=" << params.maxConnectionDistance << " bias=" << params.goalBias;
		c.Sig(w);
		for (int k = 0; k < rounds && !c.Failed(); ++k) {
			auto freePoint = [&]() { Point2d p; for (int i = 0; i < 30; ++i) { p = Point2d(r.U(-w, w), r.U(-w, w)); if (val->IsStateValid(p)) break; } return p; };
			Point2d s = freePoint(), t = r.P(0.1) ? s : freePoint();
			planner.SetInitState(s);
			planner.SetGoalState(t);
			space->samples = 0;
			val->asked = val->accepted = 0;
			val->ok.clear();
			val->ends.clear();
			Status st = planner.SearchPath();
			auto path = planner.GetPath();
			// budgets
			c.Check(space->samples <= (long)params.maxIteration, "iteration-budget", VF_MSG(space->samples << " samples drawn with a budget of " << params.maxIteration << " iterations"));
			val->ends.insert({ s[0], s[1] });
			c.Check(val->ends.size() <= params.maxNumberTreeNode || val->ends.size() <= 1, "node-budget", VF_MSG(val->ends.size() << " nodes in the tree with a budget of " << params.maxNumberTreeNode));
			if (st != Status::Success) {
				c.Count("failed");
				c.Check(path.empty(), "failure-empty-path", VF_MSG("path of " << path.size() << " states after a failed search"));
				continue;
			}
			c.Count("solved");
			if (!c.Check(!path.empty() && path.front() == s, "starts-at-init", VF_MSG("path does not start at the initial state"))) return;
			double gap = (path.back() - t).norm();
			if constexpr (IsStar<P>)
				c.Check(path.back() == t, "ends-at-goal", VF_MSG("path ends " << gap << " away from the goal"));
			else
				c.Check(gap < 1.0, "ends-in-goal-region", VF_MSG("path ends " << gap << " away from the goal"));
			c.Check(path.size() <= (size_t)params.maxIteration + 1 && path.size() <= params.maxNumberTreeNode, "path-within-budget", VF_MSG("path of " << path.size() << " states, budget " << params.maxNumberTreeNode << " nodes"));
			for (size_t i = 1; i < path.size(); ++i) {
				auto &a = path[i - 1], &b = path[i];
				c.Check(val->ok.count({ a[0], a[1], b[0], b[1] }), "edge-validated", VF_MSG("motion " << a.transpose() << " -> " << b.transpose() << " (step " << i << " of " << path.size() - 1 << ") was never accepted by the validator"));
				double len = (b - a).norm();
				c.Check(len <= params.maxConnectionDistance * (1 + 1e-9), "step-length", VF_MSG("motion of length " << len << " with a limit of " << params.maxConnectionDistance));
				c.Check(b[0] >= lb[0] - 1e-9 && b[1] >= lb[1] - 1e-9 && b[0] <= ub[0] + 1e-9 && b[1] <= ub[1] + 1e-9, "inside-bounds", VF_MSG("state outside the space: " << b.transpose()));
				c.Count("edges");
			}
			std::set<std::array<double, 2>> uniq;
			for (auto& p : path) uniq.insert({ p[0], p[1] });
			c.Check(uniq.size() == path.size(), "no-repeated-state", VF_MSG("a state appears twice in the path"));
			c.Max("path-states", (long)path.size());
			if (path.size() > 2) c.Nontrivial();
		}
	}

	Register rrt("rrt", 4, [](Ctx& c) { Run<RRTR2>(c); });
	Register rrtStar("rrt-star", 4, [](Ctx& c) { Run<RRTStarR2>(c); });
	Register rrtLarge("rrt-large", 0, [](Ctx& c) { Run<RRTR2>(c, true); });
	Register rrtStarLarge("rrt-star-large", 0, [](Ctx& c) { Run<RRTStarR2>(c, true); });

	// Bounded progress: without obstacles and always aiming at the goal, the tree grows
	// straight to the goal.
	template <typename P>
	void Greedy(Ctx& c)
	{
		Rng& r = c.rng;
		double w = r.U(2, 50);
		auto space = makeRef<StateSpaceR2>(Point2d(-w, -w), Point2d(w, w));
		auto val = makeRef<SegmentValidator>(space);
		P planner(space, val, makeRef<PathConnectionR2>());
		auto p = planner.GetParameters();
		Point2d s(r.U(-w, w), r.U(-w, w)), t(r.U(-w, w), r.U(-w, w));
		double d = (s - t).norm();
		p.maxConnectionDistance = d * r.U(0.02, 2.0);
		p.goalBias = 1.0;
		p.maxIteration = (unsigned)std::ceil(d / p.maxConnectionDistance) + 3;
		p.maxNumberTreeNode = p.maxIteration + 5;
		planner.SetParameters(p);
		planner.SetInitState(s);
		planner.SetGoalState(t);
		c.desc << "distance " << d << " step " << p.maxConnectionDistance << " iterations " << p.maxIteration;
		c.Sig(d);
		Status st = planner.SearchPath();
		c.Check(st == Status::Success, "greedy-progress", VF_MSG("goal not reached in " << p.maxIteration << " iterations aimed at it, distance " << d << ", step " << p.maxConnectionDistance));
		if (st == Status::Success) {
			auto path = planner.GetPath();
			double len = 0;
			for (size_t i = 1; i < path.size(); ++i) len += (path[i] - path[i - 1]).norm();
			c.Check(len <= d * (1 + 1e-9), "greedy-straight", VF_MSG("length " << len << " for a distance of " << d));
		}
		c.Nontrivial();
	}
	Register greedy1("greedy-rrt", 1, [](Ctx& c) { Greedy<RRTR2>(c); });
	Register greedy2("greedy-rrt-star", 1, [](Ctx& c) { Greedy<RRTStarR2>(c); });

	// The goal is drawn with the probability that was asked for: nothing is accepted, so that every iteration
	// of the budget is used and asks for one motion, aimed at a sample or at the goal.
	struct AimValidator : SegmentValidator {
		Point2d goal;
		long aimed = 0;
		using SegmentValidator::SegmentValidator;
		using StateValidator::IsPathValid;
		bool IsPathValid(const Path<Point2d>& p, float* last = nullptr) override
		{
			asked++;
			Point2d d = p.GetFinalState() - p.GetInitialState(), g = goal - p.GetInitialState();
			if (std::fabs(d[0] * g[1] - d[1] * g[0]) <= 1e-9 * d.norm() * g.norm() && d.dot(g) >= 0) aimed++;
			if (last) *last = 0;
			return false;
		}
	};
	template <typename P>
	void Bias(Ctx& c)
	{
		Rng& r = c.rng;
		double w = r.U(2, 20);
		auto space = makeRef<CountingSpace>(Point2d(-w, -w), Point2d(w, w), &r);
		auto val = makeRef<AimValidator>(space);
		P planner(space, val, makeRef<PathConnectionR2>());
		auto p = planner.GetParameters();
		p.maxIteration = 4000;
		p.goalBias = r.Pick({ 0.0, 1.0, 0.05, 0.2, 0.5, 0.8 });
		p.maxConnectionDistance = w * r.U(0.05, 3);
		planner.SetParameters(p);
		val->goal = Point2d(r.U(-w, w), r.U(-w, w));
		planner.SetInitState(Point2d(r.U(-w, w), r.U(-w, w)));
		planner.SetGoalState(val->goal);
		c.desc << "goal bias " << p.goalBias;
		c.Sig(w);
		Status st = planner.SearchPath();
		c.Check(st != Status::Success && planner.GetPath().empty(), "nothing-accepted", VF_MSG("a path although every motion is refused"));
		c.Check(val->asked <= 4000 && space->samples <= 4000, "iteration-budget", VF_MSG(val->asked << " motions in 4000 iterations"));
		double mean = 4000 * p.goalBias, dev = 8 * std::sqrt(mean * (1 - p.goalBias));
		c.Check(std::fabs(4000 - space->samples - mean) <= dev, "goal-bias", VF_MSG(space->samples << " of 4000 states were sampled with a goal bias of " << p.goalBias));
		c.Check(std::fabs(val->aimed - mean) <= dev + 2, "goal-bias", VF_MSG(val->aimed << " of 4000 motions aimed at the goal with a goal bias of " << p.goalBias));
		c.Nontrivial();
	}
	Register bias1("bias-rrt", 1, [](Ctx& c) { Bias<RRTR2>(c); });
	Register bias2("bias-rrt-star", 1, [](Ctx& c) { Bias<RRTStarR2>(c); });

	/// Sampler that replays a fixed stream, the goal included every now and then.
	struct StreamSpace : CountingSpace {
		std::vector<Point2d> stream;
		using CountingSpace::CountingSpace;
		Point2d SampleUniform() override { return stream[(size_t)(samples++) % stream.size()]; }
	};

	// Reference tree: same samples, brute-force neighbours, cheapest accepted parent.
	template <typename P>
	void Reference(Ctx& c, bool large = false)
	{
		Rng& r = c.rng;
		double w = r.U(2, 10);
		auto space = makeRef<StreamSpace>(Point2d(-w, -w), Point2d(w, w), &r);
		auto val = makeRef<SegmentValidator>(space);
		bool many = large && r.P(0.4);
		int nd = r.I(0, many ? 150 : 5);
		for (int i = 0; i < nd; ++i) val->disks.push_back({ Point2d(r.U(-w, w), r.U(-w, w)), (many ? r.U(0.005, 0.06) : r.U(0.05, 0.3)) * w });
		P planner(space, val, makeRef<PathConnectionR2>());
		auto prm = planner.GetParameters();
		prm.goalBias = 0.0;
		prm.maxIteration = many ? r.I(4000, 10000) : large ? r.I(300, 2000) : r.I(10, 200);
		prm.maxNumberTreeNode = r.P(0.8) ? 100000 : r.I(2, 80);
		prm.maxConnectionDistance = w * (many ? r.U(0.03, 0.3) : large ? r.U(0.01, 0.2) : r.U(0.1, 1.2));
		planner.SetParameters(prm);
		Point2d s, t;
		for (int i = 0; i < 50; ++i) { s = Point2d(r.U(-w, w), r.U(-w, w)); if (val->IsStateValid(s)) break; }
		for (int i = 0; i < 50; ++i) { t = Point2d(r.U(-w, w), r.U(-w, w)); if (val->IsStateValid(t)) break; }
		int every = many ? r.I(500, 6000) : large ? r.I(20, 1500) : r.I(3, 60);
		for (unsigned i = 0; i < prm.maxIteration + 5; ++i)
			space->stream.push_back((int)i % every == every - 1 ? t : Point2d(r.U(-w, w), r.U(-w, w)));
		planner.SetInitState(s);
		planner.SetGoalState(t);
		c.desc << "w=" << w << " disks=" << nd << " step=" << prm.maxConnectionDistance << " iterations=" << prm.maxIteration << " goal every " << every;
		c.Sig(w);
		Status st = planner.SearchPath();
		auto path = planner.GetPath();

		// ---- reference
		struct RN { Point2d p; int parent; double cost; };
		std::vector<RN> tree { { s, -1, 0.0 } };
		SegmentValidator v2(space);
		v2.disks = val->disks;
		int sol = -1;
		for (unsigned it = 0; it < prm.maxIteration && tree.size() < prm.maxNumberTreeNode && sol < 0; ++it) {
			const Point2d q = space->stream[it];
			int near = 0;
			for (int i = 1; i < (int)tree.size(); ++i)
				if ((tree[i].p - q).squaredNorm() < (tree[near].p - q).squaredNorm()) near = i;
			PathR2 m(tree[near].p, q);
			if (m.GetLength() > 0) m.Truncate(std::clamp(prm.maxConnectionDistance / m.GetLength(), 0.0, 1.0));
			if (!v2.IsPathValid(m)) continue;
			Point2d n = m.GetFinalState();
			bool dup = false;
			for (auto& x : tree) dup |= x.p == n;
			if (dup) continue;
			int best = near;
			double bestCost = tree[near].cost + (n - tree[near].p).norm();
			if constexpr (IsStar<P>) {
				size_t k = std::max<unsigned>(1, (unsigned)std::log((double)tree.size()));
				std::vector<int> idx(tree.size());
				for (size_t i = 0; i < idx.size(); ++i) idx[i] = (int)i;
				std::partial_sort(idx.begin(), idx.begin() + std::min(k, idx.size()), idx.end(), [&](int a, int b) { return (tree[a].p - n).squaredNorm() < (tree[b].p - n).squaredNorm(); });
				for (size_t i = 0; i < std::min(k, idx.size()); ++i) {
					int a = idx[i];
					double len = (tree[a].p - n).norm();
					PathR2 e(tree[a].p, n);
					if (len <= prm.maxConnectionDistance && tree[a].cost + len < bestCost && v2.IsPathValid(e)) best = a, bestCost = tree[a].cost + len;
				}
			}
			tree.push_back({ n, best, bestCost });
			if (IsStar<P> ? n == t : (n - t).norm() < 1) sol = (int)tree.size() - 1;
		}
		c.Max("reference-tree", (long)tree.size());
		c.Check((st == Status::Success) == (sol >= 0), "same-outcome-as-reference", VF_MSG("status " << st << ", the reference " << (sol >= 0 ? "finds" : "does not find") << " a path with the same samples"));
		if (st != Status::Success || sol < 0) {
			c.Count("reference-failed");
			return;
		}
		double len = 0;
		for (size_t i = 1; i < path.size(); ++i) len += (path[i] - path[i - 1]).norm();
		c.Check(std::fabs(len - tree[sol].cost) <= 1e-9 * (1 + len), "same-cost-as-reference", VF_MSG("path of length " << len << ", the reference tree gives " << tree[sol].cost));
		c.Count("reference-solved");
		c.Max("reference-nodes", (long)tree.size());
		if (path.size() > 2) c.Nontrivial();
	}
	Register ref1("reference-rrt", 2, [](Ctx& c) { Reference<RRTR2>(c); });
	Register ref2("reference-rrt-star", 3, [](Ctx& c) { Reference<RRTStarR2>(c); });
	Register ref1Large("reference-rrt-large", 0, [](Ctx& c) { Reference<RRTR2>(c, true); });
	Register ref2Large("reference-rrt-star-large", 0, [](Ctx& c) { Reference<RRTStarR2>(c, true); });
}
