// C03: a planner object carries nothing from one search to the next.
#include "graphs.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include "paths/path_r2.h"
#include "state_space/state_space_r2.h"
using namespace vf;

namespace {
	auto Zero() { return makeRef<TableHeuristic>([](int, int) { return 0.0; }); }

	/// The exact distances to the goal, as a heuristic of graph g.
	Ref<AStarHeuristic<int>> Exact(const Graph& g, double alpha, bool reverse)
	{
		auto cache = std::make_shared<std::map<int, std::vector<double>>>();
		const auto* adj = reverse ? &g.out : &g.in;
		return makeRef<TableHeuristic>([=](int s, int goal) {
			auto it = cache->find(goal);
			if (it == cache->end())
				it = cache->emplace(goal, Dijkstra(*adj, goal)).first;
			double d = it->second[s];
			return d == INF ? 1e6 : alpha * d;
		});
	}

	/// Everything visible about the result of a search.
	template <typename P>
	struct Seen {
		Status st;
		decltype(std::declval<const P&>().GetPath()) path;
		double cost = 0;
	};
	template <typename P>
	Seen<P> Look(const P& p, Status st) { return { st, p.GetPath(), p.GetOptimalCost() }; }

	template <typename P>
	void Compare(Ctx& c, const Seen<P>& a, const Seen<P>& b, const char* what)
	{
		c.Check(a.st == b.st, "same-status", VF_MSG(what << ": status " << a.st << " and " << b.st));
		c.Check(Close(a.cost, b.cost), "same-cost", VF_MSG(what << ": cost " << a.cost << " and " << b.cost));
		c.Check(a.path.empty() == b.path.empty(), "same-path", VF_MSG(what << ": paths of " << a.path.size() << " and " << b.path.size() << " states"));
		c.Check(a.path.empty() == (a.st != Status::Success), "path-iff-success", VF_MSG(what << ": status " << a.st << " with a path of " << a.path.size() << " states"));
		c.Check(std::isinf(a.cost) == (a.st != Status::Success), "cost-iff-success", VF_MSG(what << ": status " << a.st << " with cost " << a.cost));
	}

	/// An initialisation which fails.
	template <typename P>
	void spoil(P& p)
	{
		if constexpr (std::is_invocable_v<decltype(&P::Initialize), P&, std::nullptr_t, std::nullptr_t>)
			p.Initialize(nullptr, nullptr);
		else if constexpr (std::is_invocable_v<decltype(&P::Initialize), P&, std::nullptr_t, std::nullptr_t, std::nullptr_t, std::nullptr_t>)
			p.Initialize(nullptr, nullptr, nullptr, nullptr);
	}

	/// Run a history of queries with one planner; each is compared with a new planner.
	template <typename P, typename Init, typename Query>
	void History(Ctx& c, int rounds, Init init, Query query)
	{
		Rng& r = c.rng;
		P reused;
		bool first = true;
		for (int k = 0; k < rounds && !c.Failed(); ++k) {
			if (first || r.P(0.3)) {
				init(reused, true);
				first = false;
			}
			P fresh;
			init(fresh, false);
			auto [s, t] = query();
			for (P* p : { &reused, &fresh }) {
				p->SetInitState(s);
				p->SetGoalState(t);
			}
			auto a = Look(reused, reused.SearchPath());
			auto b = Look(fresh, fresh.SearchPath());
			Compare<P>(c, a, b, "reused and new planner");
			if (!a.path.empty())
				c.Check(a.path.front() == s && a.path.back() == t, "endpoints", VF_MSG("the path does not connect the start and goal of the last query"));
			c.Check(reused.GetInitState() == s && reused.GetGoalState() == t, "states-kept", VF_MSG("the query was changed by the search"));
			if (r.P(0.4)) { // the same search again
				auto d = Look(reused, reused.SearchPath());
				Compare<P>(c, d, a, "search repeated");
				c.Count("repeated");
			}
			if (r.P(0.3)) { // setting a query without searching does not change the answer
				auto before = Look(reused, a.st);
				auto [s2, t2] = query();
				reused.SetInitState(s2);
				reused.SetGoalState(t2);
				auto after = Look(reused, a.st);
				c.Check(before.path == after.path && (before.cost == after.cost), "answer-kept", VF_MSG("the path changed without a search"));
			}
			c.Count(a.st == Status::Success ? "solved" : "unsolved");
			if (r.P(0.1)) { // an initialisation which fails: nothing is found until one succeeds
				spoil(reused);
				auto d = Look(reused, reused.SearchPath());
				c.Check(d.st == Status::Failure && d.path.empty() && std::isinf(d.cost), "spoiled", VF_MSG("after a failed initialisation: status " << d.st << " with a path of " << d.path.size() << " states"));
				init(reused, false);
				auto e = Look(reused, reused.SearchPath());
				P other;
				init(other, false);
				other.SetInitState(reused.GetInitState());
				other.SetGoalState(reused.GetGoalState());
				Compare<P>(c, e, Look(other, other.SearchPath()), "planner initialised again");
				c.Count("spoiled");
			}
			if (k > 0)
				c.Nontrivial();
			c.Sig(a.cost);
		}
	}

	struct Grids {
		std::vector<Ref<CellMap>> maps;
		std::vector<GridCost> costs;
	};

	template <bool Tree>
	void AStarHistory(Ctx& c)
	{
		Rng& r = c.rng;
		std::vector<Graph> gs;
		for (int i = r.I(1, 3); i > 0; --i) {
			Graph g = RandomGraph(r, !Tree && r.P(0.3), Tree, !Tree && r.Rare(0.005));
			if (Tree && g.n > 12) { // the number of paths is exponential
				Graph small;
				small.Resize(12);
				for (int u = 0; u < 12; ++u)
					for (auto& e : g.out[u])
						if (e.to < 12)
							small.Add(u, e.to, e.cost);
				g = small;
			}
			gs.push_back(g);
		}
		size_t cur = 0;
		double alpha = 1;
		using P = std::conditional_t<Tree, AStar<int, int, std::hash<int>, std::equal_to<int>, false, ExploredVoid<int>>, AStar<int, int>>;
		auto init = [&](P& p, bool pick) {
			if (pick)
				cur = r.Next() % gs.size(), alpha = r.P(0.3) ? 0.0 : r.U();
			auto prop = makeRef<GraphPropagator>();
			prop->adj = &gs[cur].out;
			p.Initialize(prop, Exact(gs[cur], alpha, false));
		};
		c.desc << gs.size() << " graphs";
		History<P>(c, r.Rare(0.01) ? r.I(9, 80) : r.I(2, 8), init, [&]() { int n = gs[cur].n; int s = r.I(0, n - 1), t = r.I(0, n - 1); c.desc << " g" << cur << ":" << s << "->" << t; return std::pair<int, int>(s, t); });
	}
	Register astar("astar", 3, [](Ctx& c) { AStarHistory<false>(c); });
	Register atree("astar-tree", 1, [](Ctx& c) { AStarHistory<true>(c); });

	Register bidir("bidirectional", 3, [](Ctx& c) {
		Rng& r = c.rng;
		std::vector<Graph> gs;
		for (int i = r.I(1, 3); i > 0; --i)
			gs.push_back(RandomGraph(r, r.P(0.3), false));
		size_t cur = 0;
		using P = BidirectionalAStar<int, int>;
		auto init = [&](P& p, bool pick) {
			if (pick)
				cur = r.Next() % gs.size();
			auto f = makeRef<GraphPropagator>(), b = makeRef<GraphPropagator>();
			f->adj = &gs[cur].out;
			b->adj = &gs[cur].in;
			p.Initialize(f, b, Zero(), Zero());
		};
		c.desc << gs.size() << " graphs";
		History<P>(c, r.Rare(0.01) ? r.I(9, 80) : r.I(2, 8), init, [&]() { int n = gs[cur].n; int s = r.I(0, n - 1), t = r.I(0, n - 1); c.desc << " g" << cur << ":" << s << "->" << t; return std::pair<int, int>(s, t); });
	});

	// the map changes between the searches
	template <typename P, typename Make>
	void GridHistory(Ctx& c, Make make)
	{
		Rng& r = c.rng;
		auto map = makeRef<CellMap>(r.I(2, 14), r.I(2, 14));
		int R = map->Rows(), C = map->Columns();
		FillMap(r, *map);
		auto euclid = [](const GridCellPosition& a, const GridCellPosition& b) { return std::hypot(a.row - b.row, a.col - b.col); };
		c.desc << R << "x" << C;
		auto init = [&](P& p, bool) { make(p, map, euclid); };
		History<P>(c, r.Rare(0.01) ? r.I(7, 80) : r.I(2, 6), init, [&]() {
			for (int k = r.I(0, 6); k > 0; --k)
				map->At(r.I(0, R - 1), r.I(0, C - 1)) ^= 1;
			GridCellPosition s(r.I(0, R - 1), r.I(0, C - 1)), t(r.I(0, R - 1), r.I(0, C - 1));
			map->At(s.row, s.col) = map->At(t.row, t.col) = 0;
			c.desc << " " << s.row << "," << s.col << "->" << t.row << "," << t.col;
			return std::pair<GridCellPosition, GridCellPosition>(s, t);
		});
	}
	Register grid("grid", 2, [](Ctx& c) {
		GridHistory<AStarN2>(c, [](AStarN2& p, const Ref<CellMap>& map, auto euclid) {
			p.Initialize(makeRef<AStarStatePropagatorFcnN2>(map, euclid), makeRef<AStarHeuristicFcnN2>(euclid));
		});
	});

	Register bigrid("bidirectional-grid", 2, [](Ctx& c) {
		GridHistory<BidirectionalAStarN2>(c, [](BidirectionalAStarN2& p, const Ref<CellMap>& map, auto euclid) {
			auto prop = makeRef<AStarStatePropagatorFcnN2>(map, euclid);
			auto [f, b] = BidirectionalAStarN2::GetAverageHeuristicPair(makeRef<AStarHeuristicFcnN2>(euclid), makeRef<AStarHeuristicFcnN2>(euclid));
			p.Initialize(prop, makeRef<AStarStatePropagatorFcnN2>(map, euclid), f, b);
		});
	});

	/// Sampler that replays a fixed stream from the start of each search.
	struct StreamSpace : StateSpace<Point2d, 2, double> {
		size_t at = 0;
		std::vector<Point2d> stream;
		StreamSpace(double w) : StateSpace(std::array<Point2d, 2>({ Point2d(-w, -w), Point2d(w, w) })) { }
		void EnforceBounds(Point2d& s) override { for (int i = 0; i < 2; ++i) s[i] = std::clamp(s[i], bounds[0][i], bounds[1][i]); }
		bool ValidateBounds(const Point2d& s) override { return s[0] >= bounds[0][0] && s[1] >= bounds[0][1] && s[0] <= bounds[1][0] && s[1] <= bounds[1][1]; }
		Point2d SampleUniform() override { return stream[at++ % stream.size()]; }
		Point2d SampleGaussian(const Point2d& m, const Point2d&) override { return m; }
	};
	struct Disks : StateValidator<Point2d, 2, double> {
		std::vector<std::pair<Point2d, double>> disks;
		using StateValidator::IsPathValid;
		using StateValidator::StateValidator;
		bool IsStateValid(const Point2d& s) override
		{
			for (auto& [p, q] : disks)
				if ((s - p).norm() < q)
					return false;
			return true;
		}
		bool IsPathValid(const Path<Point2d>& p, float* last = nullptr) override
		{
			Point2d a = p.GetInitialState(), ab = p.GetFinalState() - a;
			bool ok = true;
			for (auto& [q, rad] : disks) {
				double t = ab.squaredNorm() > 0 ? std::clamp((q - a).dot(ab) / ab.squaredNorm(), 0.0, 1.0) : 0.0;
				ok = ok && (a + t * ab - q).norm() >= rad;
			}
			if (last)
				*last = ok ? 1.0f : 0.0f;
			return ok;
		}
	};

	template <typename P>
	void RRTHistory(Ctx& c)
	{
		Rng& r = c.rng;
		double w = r.U(2, 12);
		auto space = makeRef<StreamSpace>(w);
		auto val = makeRef<Disks>(space);
		P reused(space, val, makeRef<PathConnectionR2>());
		auto prm = reused.GetParameters();
		prm.goalBias = 0.0;
		bool large = r.Rare(0.005);
		prm.maxIteration = large ? r.I(120, 2500) : r.I(5, 120);
		prm.maxNumberTreeNode = r.P(0.8) ? 10000 : r.I(2, 50);
		prm.maxConnectionDistance = w * (large ? r.U(0.02, 0.2) : r.U(0.1, 1.0));
		reused.SetParameters(prm);
		int rounds = r.Rare(0.01) ? r.I(6, 40) : r.I(2, 5);
		c.desc << "w " << w << " step " << prm.maxConnectionDistance << " iterations " << prm.maxIteration;
		c.Sig(w);
		for (int k = 0; k < rounds && !c.Failed(); ++k) {
			val->disks.clear();
			for (int i = r.I(0, 4); i > 0; --i)
				val->disks.push_back({ Point2d(r.U(-w, w), r.U(-w, w)), r.U(0.05, 0.35) * w });
			if (r.P(0.15)) // nowhere to go
				val->disks.push_back({ Point2d(0, 0), 3 * w });
			Point2d s(r.U(-w, w), r.U(-w, w)), t(r.U(-w, w), r.U(-w, w));
			int every = r.I(3, 30);
			space->stream.clear();
			for (unsigned i = 0; i < prm.maxIteration + 3; ++i)
				space->stream.push_back((int)i % every == every - 1 ? t : Point2d(r.U(-w, w), r.U(-w, w)));
			P fresh(space, val, makeRef<PathConnectionR2>());
			fresh.SetParameters(prm);
			std::vector<Point2d> path[2];
			Status st[2];
			int n = 0;
			for (P* p : { &reused, &fresh }) {
				p->SetInitState(s);
				p->SetGoalState(t);
				space->at = 0;
				st[n] = p->SearchPath();
				path[n] = p->GetPath();
				n++;
			}
			c.Check(st[0] == st[1], "same-status", VF_MSG("search " << k << ": status " << st[0] << ", with a new planner " << st[1]));
			c.Check(path[0].empty() == (st[0] != Status::Success), "path-iff-success", VF_MSG("status " << st[0] << " with a path of " << path[0].size() << " states"));
			bool same = path[0].size() == path[1].size();
			for (size_t i = 0; same && i < path[0].size(); ++i)
				same = path[0][i] == path[1][i];
			c.Check(same, "same-path", VF_MSG("search " << k << ": with the same samples, a path of " << path[0].size() << " states, a new planner returns another one of " << path[1].size()));
			if (!path[0].empty())
				c.Check(path[0].front() == s, "endpoints", VF_MSG("the path does not start at the start of the last query"));
			if (k > 0)
				c.Nontrivial();
			c.Count(st[0] == Status::Success ? "solved" : "unsolved");
		}
	}
	Register rrt("rrt", 2, [](Ctx& c) { RRTHistory<RRTR2>(c); });
	Register rrtStar("rrt-star", 2, [](Ctx& c) { RRTHistory<RRTStarR2>(c); });
}
