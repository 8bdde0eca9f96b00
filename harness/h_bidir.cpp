// C02: bidirectional A* (generic graphs and grid planner).
#include "graphs.h"
using namespace vf;

namespace {
	using Bi = BidirectionalAStar<int, int>;

	struct Pair {
		Ref<AStarHeuristic<int>> f, r;
		std::string name;
	};

	/// A potential that is consistent in the forward graph: p(u) <= c(u,v) + p(v).
	std::vector<double> Potential(Rng& r, const Graph& g, int goal, double alpha)
	{
		auto d = Dijkstra(g.in, goal);
		std::vector<double> p(g.n);
		// unreachable nodes: a value above everything else keeps u->v consistent
		double top = 0;
		for (double x : d)
			if (x < INF)
				top = std::max(top, x);
		for (int i = 0; i < g.n; ++i)
			p[i] = alpha * (d[i] < INF ? d[i] : top);
		return p;
	}

	bool ForwardConsistent(const Graph& g, const std::vector<double>& p)
	{
		for (int u = 0; u < g.n; ++u)
			for (auto& e : g.out[u])
				if (p[u] > e.cost + p[e.to] + 1e-12)
					return false;
		return true;
	}
	bool ReverseConsistent(const Graph& g, const std::vector<double>& p)
	{
		for (int u = 0; u < g.n; ++u)
			for (auto& e : g.out[u])
				if (p[e.to] > e.cost + p[u] + 1e-12)
					return false;
		return true;
	}

	void Judge(Ctx& c, Bi& p, const Graph& g, Status st, int s, int t, const std::string& tag)
	{
		double ref = Dijkstra(g.out, s)[t];
		auto path = p.GetPath();
		c.Check((st == Status::Success) == (ref < INF), "completeness", VF_MSG(tag << ": status " << st << " but reference distance " << ref));
		if (st != Status::Success) {
			c.Count("searches-without-solution");
			c.Check(path.empty(), "failure-empty-path", VF_MSG(tag << ": path of " << path.size() << " states after a failed search"));
			c.Check(p.GetOptimalCost() == INF, "failure-infinite-cost", VF_MSG(tag << ": cost " << p.GetOptimalCost()));
			return;
		}
		c.Count("searches-solved");
		if (path.size() > 2)
			c.Nontrivial();
		if (!c.Check(!path.empty() && path.front() == s && path.back() == t, "endpoints", VF_MSG(tag << ": path does not go from " << s << " to " << t)))
			return;
		double sum = 0;
		for (size_t i = 0; i + 1 < path.size(); ++i) {
			double best = INF;
			for (auto& e : g.out[path[i]])
				if (e.to == path[i + 1])
					best = std::min(best, e.cost);
			if (!c.Check(best < INF, "edge-exists", VF_MSG(tag << ": step " << i << "/" << path.size() << " from " << path[i] << " to " << path[i + 1] << " is not an edge")))
				return;
			sum += best;
		}
		c.Check(sum <= p.GetOptimalCost() + 1e-9 * (1 + sum), "cost-of-path", VF_MSG(tag << ": path costs " << sum << " but the planner reports " << p.GetOptimalCost()));
		c.Check(Close(p.GetOptimalCost(), ref), "optimality", VF_MSG(tag << ": cost " << p.GetOptimalCost() << " but the optimum is " << ref << " (" << s << "->" << t << ", n=" << g.n << ")"));
		for (size_t i = 0; i + 1 < path.size(); ++i)
			c.Check(path[i] != path[i + 1], "no-repeated-state", VF_MSG(tag << ": state " << path[i] << " twice in a row"));
	}

	void GraphCase(Ctx& c, bool large)
	{
		Rng& r = c.rng;
		Graph g = RandomGraph(r, r.P(0.4), false, large);
		c.desc << "n=" << g.n << " edges=" << g.edges;
		auto fp = makeRef<GraphPropagator>(), rp = makeRef<GraphPropagator>();
		fp->adj = &g.out;
		rp->adj = &g.in;
		Bi planner;
		c.Check(planner.SearchPath() == Status::Failure, "uninitialised-fails", VF_MSG("search succeeded before initialisation"));
		int rounds = r.I(1, 4);
		for (int k = 0; k < rounds && !c.Failed(); ++k) {
			int s = r.I(0, g.n - 1), t = r.I(0, g.n - 1);
			Pair h;
			int kind = r.I(0, 3);
			auto zero = [](int, int) { return 0.0; };
			h.f = makeRef<TableHeuristic>(zero);
			h.r = makeRef<TableHeuristic>(zero);
			h.name = "zero";
			if (kind == 1) {
				double k1 = r.U(0, 5), k2 = r.U(0, 5);
				h.f = makeRef<TableHeuristic>([k1](int, int) { return k1; });
				h.r = makeRef<TableHeuristic>([k2](int, int) { return k2; });
				h.name = "constant";
			} else if (kind == 2) {
				// one consistent potential for the forward search and its negation for the reverse one
				auto p = Potential(r, g, t, r.U());
				if (ForwardConsistent(g, p)) {
					double off = r.P(0.5) ? p[s] : 0.0;
					h.f = makeRef<TableHeuristic>([p](int u, int) { return p[u]; });
					h.r = makeRef<TableHeuristic>([p, off](int u, int) { return off - p[u]; });
					h.name = "consistent-pair";
				}
			} else if (kind == 3) {
				// average of two consistent heuristics
				auto table = [&](const std::vector<std::vector<Edge>>& backwards, bool fwd) {
					double a = r.U();
					auto cache = std::make_shared<std::map<int, std::vector<double>>>();
					const auto* adj = &backwards;
					return makeRef<TableHeuristic>([=](int u, int goal) {
						auto it = cache->find(goal);
						if (it == cache->end()) {
							auto d = Dijkstra(*adj, goal);
							double top = 0;
							for (double x : d)
								if (x < INF) top = std::max(top, x);
							for (double& x : d)
								x = a * (x < INF ? x : top);
							it = cache->emplace(goal, d).first;
						}
						return it->second[u];
					});
				};
				auto f = table(g.in, true), b = table(g.out, false);
				bool ok = true;
				{
					// The pair is only promised to work for consistent inputs, whatever goal they end up with.
					for (int goal = 0; goal < g.n && ok; ++goal) {
						if (large && goal != s && goal != t)
							continue;
						std::vector<double> pf(g.n), pb(g.n);
						for (int u = 0; u < g.n; ++u)
							pf[u] = f->fn(u, goal), pb[u] = b->fn(u, goal);
						ok = ForwardConsistent(g, pf) && ReverseConsistent(g, pb);
					}
				}
				if (ok) {
					auto [x, y] = Bi::GetAverageHeuristicPair(f, b);
					h.f = x, h.r = y;
					h.name = "average";
				}
			}
			c.Count("pair:" + h.name);
			c.Check(planner.Initialize(fp, rp, h.f, h.r), "initialize", VF_MSG("initialisation refused"));
			planner.SetInitState(s);
			planner.SetGoalState(t);
			c.desc << " [" << s << "->" << t << " " << h.name << "]";
			c.Sig((uint64_t)g.edges * 1000 + g.n);
			c.Sig(s * 64 + t);
			fp->calls = rp->calls = 0;
			Status st = planner.SearchPath();
			c.Max("expansions", fp->calls + rp->calls);
			c.Check(fp->calls <= g.n && rp->calls <= g.n, "each-state-expanded-once", VF_MSG(fp->calls << "+" << rp->calls << " expansions of " << g.n << " states"));
			Judge(c, planner, g, st, s, t, h.name);
		}
		Bi bad;
		c.Check(!bad.Initialize(fp, nullptr, nullptr, nullptr) && bad.SearchPath() == Status::Failure, "initialise-null", VF_MSG("null components accepted"));
	}
	Register graph("graph", 6, [](Ctx& c) { GraphCase(c, false); });
	Register graphLarge("graph-large", 0, [](Ctx& c) { GraphCase(c, true); });

	// Very long paths: the search trees are as deep as half of the path.
	Register deep("deep", 0, [](Ctx& c) {
		Rng& r = c.rng;
		int n = r.P(0.3) ? r.I(600000, 800000) : r.I(5000, 100000);
		Graph g;
		g.Resize(n);
		double total = 0;
		for (int i = 0; i + 1 < n; ++i) {
			double w = (double)r.I(1, 3);
			g.Add(i, i + 1, w);
			total += w;
			if (r.P(0.1))
				g.Add(i + 1, r.I(0, i + 1), (double)r.I(0, 3));
		}
		c.desc << "chain of " << n;
		c.Sig(n);
		auto fp = makeRef<GraphPropagator>(), rp = makeRef<GraphPropagator>();
		fp->adj = &g.out;
		rp->adj = &g.in;
		auto zero = [](int, int) { return 0.0; };
		Bi planner;
		planner.Initialize(fp, rp, makeRef<TableHeuristic>(zero), makeRef<TableHeuristic>(zero));
		planner.SetInitState(0);
		planner.SetGoalState(n - 1);
		Status st = planner.SearchPath();
		auto path = planner.GetPath();
		c.Check(st == Status::Success && Close(planner.GetOptimalCost(), total), "optimality", VF_MSG("deep: cost " << planner.GetOptimalCost() << ", optimum " << total));
		bool ok = (int)path.size() == n;
		for (int i = 0; ok && i < n; ++i)
			ok = path[i] == i;
		c.Check(ok, "edge-exists", VF_MSG("deep: the path of " << path.size() << " states is not the chain of " << n));
		c.Max("deepest-path", (long)path.size());
		c.Nontrivial();
	});

	double Euclid(const GridCellPosition& a, const GridCellPosition& b) { return std::sqrt((double)(a.row - b.row) * (a.row - b.row) + (double)(a.col - b.col) * (a.col - b.col)); }

	Register grid("grid", 6, [](Ctx& c) {
		Rng& r = c.rng;
		bool large = r.Rare(0.003);
		int R = r.I(1, large ? 150 : 20), C = r.I(1, large ? 150 : 20);
		auto map = makeRef<CellMap>(R, C);
		R = map->Rows(), C = map->Columns();
		FillMap(r, *map);
		auto occ = [m = map.get()](int a, int b) { return (bool)m->At(a, b); };
		GridCost cost;
		cost.style = r.P(0.5) ? 0 : r.I(1, 5);
		cost.salt = r.Next();
		cost.symmetric = true; // the reverse search uses the same transition function
		Graph g = GridGraph(R, C, occ, cost);
		auto prop = [&]() { return makeRef<AStarStatePropagatorFcnN2>(map, [&](const GridCellPosition& a, const GridCellPosition& b) { return cost(a.row, a.col, b.row, b.col); }); };
		int hk = r.I(0, 2);
		Ref<AStarHeuristic<GridCellPosition>> hf = makeRef<AStarHeuristicFcnN2>([hk](const GridCellPosition& a, const GridCellPosition& b) { return hk == 0 ? 0.0 : Euclid(a, b); });
		Ref<AStarHeuristic<GridCellPosition>> hr = makeRef<AStarHeuristicFcnN2>([hk](const GridCellPosition& a, const GridCellPosition& b) { return hk == 0 ? 0.0 : Euclid(a, b); });
		if (hk == 2 || r.P(0.5))
			std::tie(hf, hr) = BidirectionalAStarN2::GetAverageHeuristicPair(hf, hr);
		else if (hk == 1)
			std::tie(hf, hr) = BidirectionalAStarN2::GetAverageHeuristicPair(hf, hf);
		BidirectionalAStarN2 planner;
		planner.Initialize(prop(), prop(), hf, hr);
		int rounds = r.I(1, 3);
		for (int k = 0; k < rounds && !c.Failed(); ++k) {
			GridCellPosition s(0, 0), t(0, 0);
			bool ok = false;
			for (int q = 0; q < 50 && !ok; ++q) {
				s = { r.I(0, R - 1), r.I(0, C - 1) };
				t = { r.I(0, R - 1), r.I(0, C - 1) };
				ok = !occ(s.row, s.col) && !occ(t.row, t.col);
			}
			if (!ok)
				return;
			planner.SetInitState(s);
			planner.SetGoalState(t);
			c.desc << R << "x" << C << " (" << s.row << "," << s.col << ")->(" << t.row << "," << t.col << ") h" << hk << " cost" << cost.style << "; ";
			c.Sig(R * 100 + C);
			c.Sig(s.row * 1000 + s.col);
			c.Sig(t.row * 1000 + t.col);
			Status st = planner.SearchPath();
			double ref = Dijkstra(g.out, s.row * C + s.col)[t.row * C + t.col];
			auto path = planner.GetPath();
			c.Check((st == Status::Success) == (ref < INF), "grid-completeness", VF_MSG("status " << st << " but reference distance " << ref));
			if (st != Status::Success) {
				c.Check(path.empty() && planner.GetOptimalCost() == INF, "grid-failure-empty", VF_MSG("non-empty result after failure"));
				c.Count("grid-without-solution");
				continue;
			}
			c.Count("grid-solved");
			if (path.size() > 2)
				c.Nontrivial();
			if (!c.Check(!path.empty() && path.front() == s && path.back() == t, "grid-endpoints", VF_MSG("path does not connect start and goal")))
				return;
			double sum = 0;
			for (size_t i = 1; i < path.size(); ++i) {
				auto &q = path[i], &o = path[i - 1];
				if (!c.Check(map->IsInsideMap(q), "grid-inside", VF_MSG("cell outside the map")))
					return;
				c.Check(!occ(q.row, q.col), "grid-free", VF_MSG("path enters occupied cell " << q.row << "," << q.col));
				int dr = std::abs(q.row - o.row), dc = std::abs(q.col - o.col);
				c.Check(std::max(dr, dc) == 1, "grid-adjacent", VF_MSG("step " << i << " from " << o.row << "," << o.col << " to " << q.row << "," << q.col));
				c.Check(!(dr && dc && occ(q.row, o.col) && occ(o.row, q.col)), "grid-corner", VF_MSG("diagonal squeezed between two occupied cells"));
				sum += cost(o.row, o.col, q.row, q.col);
			}
			c.Check(Close(sum, planner.GetOptimalCost(), 1e-7), "grid-cost-of-path", VF_MSG("path costs " << sum << ", planner reports " << planner.GetOptimalCost()));
			c.Check(Close(ref, planner.GetOptimalCost(), 1e-7), "grid-optimality", VF_MSG("cost " << planner.GetOptimalCost() << ", optimum " << ref));
		}
	});

	// The averaged pair must be a consistent pair for the endpoints of the current search:
	// the sum is the same at every state, and each member is goal directed.
	Register pairSum("average-pair", 1, [](Ctx& c) {
		Rng& r = c.rng;
		int R = r.I(3, 15), C = r.I(3, 15);
		auto map = makeRef<CellMap>(R, C);
		auto mk = [&]() { return makeRef<AStarHeuristicFcnN2>([](const GridCellPosition& a, const GridCellPosition& b) { return Euclid(a, b); }); };
		auto [hf, hr] = BidirectionalAStarN2::GetAverageHeuristicPair(mk(), mk());
		auto prop = makeRef<AStarStatePropagatorFcnN2>(map, [](const GridCellPosition& a, const GridCellPosition& b) { return Euclid(a, b); });
		BidirectionalAStarN2 planner;
		planner.Initialize(prop, prop, hf, hr);
		for (int k = 0; k < 3; ++k) {
			GridCellPosition s(r.I(0, R - 1), r.I(0, C - 1)), t(r.I(0, R - 1), r.I(0, C - 1));
			planner.SetInitState(s);
			planner.SetGoalState(t);
			planner.SearchPath();
			c.desc << "(" << s.row << "," << s.col << ")->(" << t.row << "," << t.col << ") ";
			c.Sig(s.row * 1000 + s.col);
			c.Sig(t.row * 1000 + t.col);
			double sum = hf->GetHeuristicValue(s) + hr->GetHeuristicValue(s);
			for (int i = 0; i < 10; ++i) {
				GridCellPosition u(r.I(0, R - 1), r.I(0, C - 1)), v(r.I(0, R - 1), r.I(0, C - 1));
				double su = hf->GetHeuristicValue(u) + hr->GetHeuristicValue(u);
				c.Check(Close(su, sum), "pair-sum-constant", VF_MSG("sum " << su << " at one state, " << sum << " at another"));
				c.Check(hf->GetHeuristicValue(u) <= Euclid(u, v) + hf->GetHeuristicValue(v) + 1e-9, "pair-forward-consistent", VF_MSG("inconsistent forward member"));
				c.Check(hr->GetHeuristicValue(u) <= Euclid(u, v) + hr->GetHeuristicValue(v) + 1e-9, "pair-reverse-consistent", VF_MSG("inconsistent reverse member"));
				c.Check(hf->GetHeuristicValue(u) <= Euclid(u, t) + 1e-9 && hr->GetHeuristicValue(u) <= Euclid(u, s) + 1e-9, "pair-admissible", VF_MSG("member over-estimates: " << hf->GetHeuristicValue(u) << " vs " << Euclid(u, t)));
			}
			// goal directed: the value at the goal is not larger than the value at the start
			c.Check(Close(hf->GetHeuristicValue(s) - hf->GetHeuristicValue(t), Euclid(s, t)) && Close(hr->GetHeuristicValue(t) - hr->GetHeuristicValue(s), Euclid(s, t)), "pair-goal-directed",
				VF_MSG("forward member drops by " << hf->GetHeuristicValue(s) - hf->GetHeuristicValue(t) << " from start to goal, expected " << Euclid(s, t)));
			c.Nontrivial();
		}
	});
}
