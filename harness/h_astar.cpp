// C01: unidirectional A* (generic graph search, tree search, grid planner).
#include "graphs.h"
using namespace vf;

namespace {
	// Consistent heuristics built from the true distances to the goal of the graph.
	std::function<double(int, int)> ConsistentHeuristic(Rng& r, const Graph& g, std::string& name)
	{
		auto cache = std::make_shared<std::map<int, std::vector<double>>>();
		const Graph* gp = &g;
		auto toGoal = [cache, gp](int goal) -> const std::vector<double>& {
			auto it = cache->find(goal);
			if (it == cache->end())
				it = cache->emplace(goal, Dijkstra(gp->in, goal)).first;
			return it->second;
		};
		int kind = r.I(0, 3);
		double alpha = kind == 0 ? 0.0 : kind == 1 ? 1.0 : r.U();
		double unreachable = r.P(0.5) ? 1e6 : INF;
		int landmark = r.I(0, g.n - 1);
		auto dl = std::make_shared<std::vector<double>>(Dijkstra(g.out, landmark));
		if (kind == 3) {
			name = "landmark";
			return [dl](int s, int goal) {
				double a = (*dl)[goal], b = (*dl)[s];
				if (a == INF || b == INF)
					return 0.0; // consistent only if handled per component, see below
				return std::max(0.0, a - b);
			};
		}
		name = "alpha=" + std::to_string(alpha);
		return [toGoal, alpha, unreachable](int s, int goal) {
			double d = toGoal(goal)[s];
			return d == INF ? unreachable : alpha * d;
		};
	}

	bool IsConsistent(const Graph& g, const std::function<double(int, int)>& h, int goal)
	{
		for (int u = 0; u < g.n; ++u)
			for (auto& e : g.out[u])
				if (h(u, goal) > e.cost + h(e.to, goal) + 1e-9)
					return false;
		return std::fabs(h(goal, goal)) < 1e-9;
	}

	template <typename Planner>
	void JudgeGraph(Ctx& c, Planner& p, const Graph& g, Status st, int s, int t, const std::vector<double>& dist, const char* tag)
	{
		double ref = dist[t];
		auto path = p.GetPath();
		auto actions = p.GetActions();
		c.Check((st == Status::Success) == (ref < INF), "completeness", VF_MSG(tag << ": status " << st << " but reference distance " << ref << " from " << s << " to " << t));
		if (st != Status::Success) {
			c.Check(path.empty() && actions.empty(), "failure-empty-path", VF_MSG(tag << ": path of " << path.size() << " states after a failed search"));
			c.Check(p.GetOptimalCost() == INF, "failure-infinite-cost", VF_MSG(tag << ": cost " << p.GetOptimalCost() << " after a failed search"));
			c.Count("searches-without-solution");
			return;
		}
		c.Count("searches-solved");
		if (path.size() > 2)
			c.Nontrivial();
		if (!c.Check(!path.empty() && path.front() == s && path.back() == t, "endpoints", VF_MSG(tag << ": path does not go from " << s << " to " << t)))
			return;
		if (!c.Check(actions.size() + 1 == path.size(), "action-count", VF_MSG(tag << ": " << actions.size() << " actions for " << path.size() << " states")))
			return;
		double sum = 0;
		for (size_t i = 0; i + 1 < path.size(); ++i) {
			const Edge* hit = nullptr;
			for (auto& e : g.out[path[i]])
				if (e.to == path[i + 1] && e.id == actions[i])
					hit = &e;
			if (!c.Check(hit != nullptr, "edge-exists", VF_MSG(tag << ": step " << i << " from " << path[i] << " to " << path[i + 1] << " by action " << actions[i] << " is not an edge")))
				return;
			sum += hit->cost;
		}
		c.Check(Close(sum, p.GetOptimalCost()), "cost-of-path", VF_MSG(tag << ": path costs " << sum << " but the planner reports " << p.GetOptimalCost()));
		c.Check(Close(p.GetOptimalCost(), ref), "optimality", VF_MSG(tag << ": cost " << p.GetOptimalCost() << " but the optimum is " << ref << " (" << s << "->" << t << ", n=" << g.n << ")"));
	}

	void GraphSearch(Ctx& c, bool large)
	{
		Rng& r = c.rng;
		Graph g = RandomGraph(r, r.P(0.3), false, large);
		c.desc << "n=" << g.n << " edges=" << g.edges;
		auto prop = makeRef<GraphPropagator>();
		prop->adj = &g.out;
		AStar<int, int> planner;
		c.Check(planner.SearchPath() == Status::Failure, "uninitialised-fails", VF_MSG("search succeeded before initialisation"));
		int rounds = r.I(1, 4);
		for (int k = 0; k < rounds && !c.Failed(); ++k) {
			std::string hname;
			auto h = ConsistentHeuristic(r, g, hname);
			int s = r.I(0, g.n - 1), t = r.I(0, g.n - 1);
			if (!IsConsistent(g, h, t))
				h = [](int, int) { return 0.0; }, hname = "zero";
			Ref<AStarHeuristic<int>> heur = makeRef<TableHeuristic>(h);
			int wrap = r.I(0, 2);
			if (wrap == 1) {
				auto comb = makeRef<AStarCombinedHeuristic<int>>();
				comb->Add(makeRef<TableHeuristic>([](int, int) { return 0.0; }), heur);
				heur = comb;
			} else if (wrap == 2) {
				auto f = [](const int& x) { return x; };
				heur = makeRef<AStarHeuristicAdapter<int, int, decltype(f)>>(heur, f);
			}
			c.Check(planner.Initialize(prop, heur), "initialize", VF_MSG("initialisation refused"));
			planner.SetInitState(s);
			planner.SetGoalState(t);
			c.desc << " [" << s << "->" << t << " h=" << hname << " wrap=" << wrap << "]";
			c.Sig((uint64_t)g.edges * 1000 + g.n);
			c.Sig(s * 64 + t);
			prop->calls = 0;
			Status st = planner.SearchPath();
			c.Max("expansions", prop->calls);
			c.Check(prop->calls <= g.n, "each-state-expanded-once", VF_MSG(prop->calls << " expansions of " << g.n << " states"));
			JudgeGraph(c, planner, g, st, s, t, Dijkstra(g.out, s), "graph");
		}
		AStar<int, int> bad;
		c.Check(!bad.Initialize(nullptr, nullptr) && bad.SearchPath() == Status::Failure, "initialise-null", VF_MSG("null components accepted"));
	}
	Register graphSearch("graph-search", 6, [](Ctx& c) { GraphSearch(c, false); });
	Register graphLarge("graph-large", 0, [](Ctx& c) { GraphSearch(c, true); });

	// Very long paths: the search tree is as deep as the path.
	Register deep("deep", 0, [](Ctx& c) {
		Rng& r = c.rng;
		int n = r.P(0.4) ? r.I(300000, 500000) : r.I(5000, 100000);
		Graph g;
		g.Resize(n);
		double total = 0;
		bool zero = r.P(0.2);
		for (int i = 0; i + 1 < n; ++i) {
			double w = zero ? 0.0 : (double)r.I(1, 3);
			g.Add(i, i + 1, w);
			total += w;
			if (r.P(0.1))
				g.Add(i + 1, r.I(0, i + 1), (double)r.I(0, 3)); // back again
			if (r.P(0.1))
				g.Add(i, std::min(n - 1, i + 2), 7.0); // a detour that skips a state
		}
		c.desc << "chain of " << n;
		c.Sig(n);
		auto prop = makeRef<GraphPropagator>();
		prop->adj = &g.out;
		AStar<int, int> planner;
		planner.Initialize(prop, makeRef<TableHeuristic>([](int, int) { return 0.0; }));
		planner.SetInitState(0);
		planner.SetGoalState(n - 1);
		Status st = planner.SearchPath();
		auto path = planner.GetPath();
		auto actions = planner.GetActions();
		c.Check(st == Status::Success && Close(planner.GetOptimalCost(), total), "optimality", VF_MSG("deep: cost " << planner.GetOptimalCost() << ", optimum " << total));
		double sum = 0;
		bool ok = !path.empty() && path.front() == 0 && path.back() == n - 1 && actions.size() + 1 == path.size();
		for (size_t i = 0; ok && i + 1 < path.size(); ++i) {
			const Edge* hit = nullptr;
			for (auto& e : g.out[path[i]])
				if (e.to == path[i + 1] && e.id == actions[i])
					hit = &e;
			ok = hit != nullptr;
			if (hit)
				sum += hit->cost;
		}
		c.Check(ok && Close(sum, total), "cost-of-path", VF_MSG("deep: the path of " << path.size() << " states costs " << sum << ", expected " << total));
		c.Max("deepest-path", (long)path.size());
		c.Nontrivial();
	});

	// Tree search: optimal with a merely admissible heuristic, on acyclic graphs.
	Register treeSearch("tree-search", 2, [](Ctx& c) {
		Rng& r = c.rng;
		Graph g = RandomGraph(r, false, true);
		if (g.n > 14) { // the number of paths is exponential
			Graph small;
			small.Resize(14);
			for (int u = 0; u < 14; ++u)
				for (auto& e : g.out[u])
					if (e.to < 14)
						small.Add(u, e.to, e.cost);
			g = small;
		}
		auto prop = makeRef<GraphPropagator>();
		prop->adj = &g.out;
		int s = r.I(0, g.n - 1), t = r.I(0, g.n - 1);
		auto toGoal = Dijkstra(g.in, t);
		std::vector<double> h(g.n);
		for (int i = 0; i < g.n; ++i)
			h[i] = toGoal[i] == INF ? r.U(0, 100) : toGoal[i] * r.U(); // admissible, not consistent
		AStar<int, int, std::hash<int>, std::equal_to<int>, false, ExploredVoid<int>> planner;
		planner.Initialize(prop, makeRef<TableHeuristic>([&](int x, int) { return h[x]; }));
		planner.SetInitState(s);
		planner.SetGoalState(t);
		c.desc << "n=" << g.n << " edges=" << g.edges << " " << s << "->" << t;
		c.Sig((uint64_t)g.edges * 1000 + g.n);
		c.Sig(s * 64 + t);
		Status st = planner.SearchPath();
		JudgeGraph(c, planner, g, st, s, t, Dijkstra(g.out, s), "tree");
	});

	void JudgeGrid(Ctx& c, AStarN2& p, Status st, int R, int C, const Graph& g, const std::function<bool(int, int)>& occ, const GridCost& cost, GridCellPosition s, GridCellPosition t)
	{
		double ref = Dijkstra(g.out, s.row * C + s.col)[t.row * C + t.col];
		auto path = p.GetPath();
		c.Check((st == Status::Success) == (ref < INF), "grid-completeness", VF_MSG("status " << st << " but reference distance " << ref));
		if (st != Status::Success) {
			c.Check(path.empty() && p.GetOptimalCost() == INF, "grid-failure-empty", VF_MSG("non-empty result after failure"));
			c.Count("grid-without-solution");
			return;
		}
		c.Count("grid-solved");
		c.Max("grid-path-length", (long)path.size());
		if (path.size() > 2)
			c.Nontrivial();
		if (!c.Check(!path.empty() && path.front() == s && path.back() == t, "grid-endpoints", VF_MSG("path does not connect start and goal")))
			return;
		double sum = 0;
		for (size_t i = 0; i < path.size(); ++i) {
			auto& q = path[i];
			if (!c.Check(q.row >= 0 && q.col >= 0 && q.row < R && q.col < C, "grid-inside", VF_MSG("cell " << q.row << "," << q.col << " outside the map")))
				return;
			if (i > 0) {
				auto& o = path[i - 1];
				c.Check(!occ(q.row, q.col), "grid-free", VF_MSG("path enters occupied cell " << q.row << "," << q.col));
				int dr = std::abs(q.row - o.row), dc = std::abs(q.col - o.col);
				c.Check(std::max(dr, dc) == 1, "grid-adjacent", VF_MSG("jump from " << o.row << "," << o.col << " to " << q.row << "," << q.col));
				c.Check(!(dr && dc && occ(q.row, o.col) && occ(o.row, q.col)), "grid-corner", VF_MSG("diagonal squeezed between two occupied cells at " << q.row << "," << q.col));
				sum += cost(o.row, o.col, q.row, q.col);
			}
		}
		c.Check(Close(sum, p.GetOptimalCost(), 1e-7), "grid-cost-of-path", VF_MSG("path costs " << sum << ", planner reports " << p.GetOptimalCost()));
		c.Check(Close(ref, p.GetOptimalCost(), 1e-7), "grid-optimality", VF_MSG("cost " << p.GetOptimalCost() << ", optimum " << ref));
	}

	double Euclid(const GridCellPosition& a, const GridCellPosition& b) { return std::sqrt((double)(a.row - b.row) * (a.row - b.row) + (double)(a.col - b.col) * (a.col - b.col)); }

	void GridCase(Ctx& c, int R, int C, const Ref<OccupancyMap>& map, const std::function<bool(int, int)>& occ)
	{
		Rng& r = c.rng;
		GridCost cost;
		cost.style = r.P(0.6) ? 0 : r.I(1, 5);
		cost.salt = r.Next();
		cost.symmetric = r.P(0.5);
		Graph g = GridGraph(R, C, occ, cost);
		auto prop = makeRef<AStarStatePropagatorFcnN2>(map, [&](const GridCellPosition& a, const GridCellPosition& b) { return cost(a.row, a.col, b.row, b.col); });
		int hk = r.I(0, 2);
		auto heur = makeRef<AStarHeuristicFcnN2>([hk](const GridCellPosition& a, const GridCellPosition& b) -> double {
			double dx = std::abs(a.row - b.row), dy = std::abs(a.col - b.col);
			if (hk == 0) return 0.0;
			if (hk == 1) return Euclid(a, b);
			return std::max(dx, dy) + (std::sqrt(2.0) - 1) * std::min(dx, dy); // octile, the exact free-space distance
		});
		AStarN2 planner;
		planner.Initialize(prop, heur);
		int rounds = r.I(1, 3);
		for (int k = 0; k < rounds && !c.Failed(); ++k) {
			GridCellPosition s(r.I(0, R - 1), r.I(0, C - 1)), t(r.I(0, R - 1), r.I(0, C - 1));
			for (int q = 0; q < 20 && occ(t.row, t.col); ++q)
				t = { r.I(0, R - 1), r.I(0, C - 1) };
			planner.SetInitState(s);
			planner.SetGoalState(t);
			c.desc << R << "x" << C << " (" << s.row << "," << s.col << ")->(" << t.row << "," << t.col << ") h" << hk << " cost" << cost.style << "; ";
			c.Sig(R * 100 + C);
			c.Sig(s.row * 1000 + s.col);
			c.Sig(t.row * 1000 + t.col);
			Status st = planner.SearchPath();
			JudgeGrid(c, planner, st, R, C, g, occ, cost, s, t);
		}
	}

	Register gridCells("grid-cells", 6, [](Ctx& c) {
		Rng& r = c.rng;
		int R = r.I(1, 22), C = r.I(1, 22);
		auto map = makeRef<CellMap>(R, C);
		R = map->Rows(), C = map->Columns();
		FillMap(r, *map);
		auto occ = [m = map.get()](int a, int b) { return (bool)m->At(a, b); };
		GridCase(c, R, C, map, occ);
	});

	// Closed obstacle outlines of the real occupancy map: nothing may leak through them.
	Register gridObstacles("grid-obstacles", 2, [](Ctx& c) {
		Rng& r = c.rng;
		auto map = makeRef<ObstacleListOccupancyMap>((float)r.Pick({ 0.25, 0.5, 1.0 }));
		map->InitializeSize((float)r.U(4, 14), (float)r.U(4, 14));
		int n = r.I(0, 5);
		for (int i = 0; i < n; ++i) {
			auto o = makeRef<Obstacle>();
			int k = r.I(0, 2);
			if (k == 0) o->SetShape(makeRef<RectangleShape>(r.U(0.5, 5), r.U(0.5, 5)));
			else if (k == 1) o->SetShape(makeRef<CircleShape>(r.U(0.3, 3), r.I(4, 12)));
			else o->SetShape(makeRef<RegularPolygonShape>(r.U(0.3, 3), r.I(3, 8)));
			o->SetPose({ r.U(-6, 6), r.U(-6, 6), r.U(-M_PI, M_PI) });
			map->AddObstacle(o);
		}
		int R = map->Rows(), C = map->Columns();
		auto occ = [m = map.get()](int a, int b) { return m->GetOccupancyValue(a, b) >= 0; };
		GridCase(c, R, C, map, occ);
	});

	// The inside of a closed obstacle is unreachable from the outside (and conversely): the
	// conjunction of the outline rasterisation and the corner rule of the grid planner.
	Register separation("closed-outline-separates", 2, [](Ctx& c) {
		Rng& r = c.rng;
		double res = r.Pick({ 0.25, 0.5, 1.0 });
		auto map = makeRef<ObstacleListOccupancyMap>((float)res);
		map->InitializeSize((float)(30 * res + r.U(0, 5)), (float)(30 * res + r.U(0, 5)));
		auto o = makeRef<Obstacle>();
		int k = r.I(0, 2);
		double rad = r.U(5, 10) * res;
		std::vector<Point2d> poly;
		if (k == 0) o->SetShape(makeRef<RectangleShape>(rad * r.U(1.2, 2), rad * r.U(1.2, 2)));
		else if (k == 1) o->SetShape(makeRef<CircleShape>(rad, r.I(4, 16)));
		else o->SetShape(makeRef<RegularPolygonShape>(rad, r.I(3, 9)));
		Pose2d pose(r.U(-2, 2) * res, r.U(-2, 2) * res, r.U(-M_PI, M_PI));
		o->SetPose(pose);
		map->AddObstacle(o);
		int R = map->Rows(), C = map->Columns();
		GridCellPosition s = map->WorldPositionToGridCell(pose.position);
		GridCellPosition t(r.P(0.5) ? 0 : R - 1, r.P(0.5) ? 0 : C - 1);
		c.desc << "res " << res << " shape " << k << " radius " << rad << " pose " << pose.x() << "," << pose.y() << "," << pose.theta;
		c.Sig(rad);
		if (map->IsOccupied(s) || map->IsOccupied(t))
			return; // degenerate placement
		auto prop = makeRef<AStarStatePropagatorFcnN2>(map, [](const GridCellPosition& a, const GridCellPosition& b) { return Euclid(a, b); });
		auto heur = makeRef<AStarHeuristicFcnN2>([](const GridCellPosition& a, const GridCellPosition& b) { return Euclid(a, b); });
		AStarN2 planner;
		planner.Initialize(prop, heur);
		for (int dir = 0; dir < 2; ++dir) {
			planner.SetInitState(dir ? t : s);
			planner.SetGoalState(dir ? s : t);
			c.Check(planner.SearchPath() == Status::Failure, "outline-leak", VF_MSG("a grid path of " << planner.GetPath().size() << " cells crosses a closed obstacle outline"));
		}
		c.Nontrivial();
	});

	// A single, large instance per case: deep trees, long frontiers.
	Register large("grid-large", 1, [](Ctx& c) {
		Rng& r = c.rng;
		int R = r.I(40, r.Rare(0.02) ? 200 : 70), C = r.I(40, r.Rare(0.02) ? 200 : 70);
		auto map = makeRef<CellMap>(R, C);
		R = map->Rows(), C = map->Columns();
		FillMap(r, *map);
		auto occ = [m = map.get()](int a, int b) { return (bool)m->At(a, b); };
		GridCase(c, R, C, map, occ);
	});
}
