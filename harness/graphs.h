// Random graph and grid problems with an independent reference solver (Dijkstra).
#pragma once
#include "common.h"
#include "algo/a_star.h"
#include "algo/a_star_n2.h"
#include "algo/bidirectional_a_star.h"
#include "state_validator/occupancy_map.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/obstacle.h"

namespace vf {
	using namespace Planner;
	constexpr double INF = std::numeric_limits<double>::infinity();

	struct Edge {
		int to;
		int id;
		double cost;
	};

	/// A directed multigraph.
	struct Graph {
		int n = 0;
		std::vector<std::vector<Edge>> out, in;
		int edges = 0;
		void Resize(int size) { n = size; out.assign(n, {}); in.assign(n, {}); }
		void Add(int a, int b, double c)
		{
			out[a].push_back({ b, edges, c });
			in[b].push_back({ a, edges, c });
			edges++;
		}
	};

	/// Textbook O(V^2) Dijkstra: deliberately unlike the code under test.
	inline std::vector<double> Dijkstra(const std::vector<std::vector<Edge>>& adj, int src)
	{
		int n = (int)adj.size();
		std::vector<double> d(n, INF);
		if (n > 600) { // sparse version for larger instances
			std::set<std::pair<double, int>> q;
			d[src] = 0;
			q.insert({ 0.0, src });
			while (!q.empty()) {
				int u = q.begin()->second;
				q.erase(q.begin());
				for (auto& e : adj[u])
					if (d[u] + e.cost < d[e.to]) {
						q.erase({ d[e.to], e.to });
						d[e.to] = d[u] + e.cost;
						q.insert({ d[e.to], e.to });
					}
			}
			return d;
		}
		std::vector<char> done(n, 0);
		d[src] = 0;
		for (int it = 0; it < n; ++it) {
			int u = -1;
			for (int i = 0; i < n; ++i)
				if (!done[i] && d[i] < INF && (u < 0 || d[i] < d[u]))
					u = i;
			if (u < 0)
				break;
			done[u] = 1;
			for (auto& e : adj[u])
				d[e.to] = std::min(d[e.to], d[u] + e.cost);
		}
		return d;
	}

	inline Graph RandomGraph(Rng& r, bool undirected, bool dag, bool large = false)
	{
		Graph g;
		g.Resize(large ? r.I(200, 4000) : r.I(1, 40));
		int style = r.I(0, 4);
		double density = r.U(0.5, 4.0);
		int m = (int)(g.n * density);
		auto cost = [&]() {
			switch (style) {
			case 0: return (double)r.I(1, 10);
			case 1: return (double)r.I(0, 3); // zero-cost edges, many ties
			case 2: return r.U(0.01, 1.0);
			case 3: return r.P(0.2) ? r.U(10, 100) : r.U(0.1, 1.0); // a few long edges
			default: return 1.0;
			}
		};
		if (large && r.P(0.6)) { // local connections only: long paths
			int span = r.I(1, 30);
			for (int i = 0; i < m; ++i) {
				int a = r.I(0, g.n - 1), b = std::clamp(a + r.I(-span, span), 0, g.n - 1);
				double c = cost();
				g.Add(a, b, c);
				if (undirected)
					g.Add(b, a, c);
			}
			if (r.P(0.5))
				for (int i = 0; i + 1 < g.n; ++i) {
					double c = cost() + r.P(0.5) * 5;
					g.Add(i, i + 1, c);
					if (undirected)
						g.Add(i + 1, i, c);
				}
			return g;
		}
		for (int i = 0; i < m; ++i) {
			int a = r.I(0, g.n - 1), b = r.I(0, g.n - 1);
			if (dag) {
				if (a == b)
					continue;
				if (a > b)
					std::swap(a, b);
			}
			double c = cost();
			g.Add(a, b, c);
			if (undirected)
				g.Add(b, a, c);
		}
		// Long-edge chains defeat searches that only compare closed sets.
		if (!dag && g.n > 4 && r.P(0.3)) {
			double c = r.U(3, 30);
			int a = r.I(0, g.n - 1), b = r.I(0, g.n - 1);
			g.Add(a, b, c);
			if (undirected)
				g.Add(b, a, c);
		}
		return g;
	}

	struct GraphPropagator : AStarStatePropagator<int, int> {
		const std::vector<std::vector<Edge>>* adj;
		long calls = 0;
		std::vector<std::tuple<int, int, double>> GetNeighborStates(const int& s) override
		{
			calls++;
			std::vector<std::tuple<int, int, double>> v;
			for (auto& e : (*adj)[s])
				v.emplace_back(e.to, e.id, e.cost);
			return v;
		}
	};

	/// Heuristic given by a table per goal: value(state) = fn(state, goal).
	struct TableHeuristic : AStarConcreteHeuristic<int> {
		std::function<double(int, int)> fn;
		TableHeuristic(std::function<double(int, int)> f) : fn(std::move(f)) { m_goal = 0; }
		double GetHeuristicValue(const int& s) override { return fn(s, m_goal); }
	};

	/// Occupancy map whose cells the harness sets directly.
	struct CellMap : OccupancyMap {
		std::vector<char> occ;
		long reads = 0;
		CellMap(int rows, int cols, float res = 1.0f) : OccupancyMap(res)
		{
			InitializeSize((float)rows * res, (float)cols * res);
			occ.assign((size_t)Rows() * Columns(), 0);
		}
		char& At(int r, int c) { return occ[(size_t)r * Columns() + c]; }
		bool IsOccupied(const GridCellPosition& c) override
		{
			reads++;
			if (!IsInsideMap(c))
				throw std::logic_error("the planner queried the occupancy of a cell outside the map");
			return occ[(size_t)c.row * Columns() + c.col];
		}
	};

	/// Fill a map with one of several obstacle styles.
	inline void FillMap(Rng& r, CellMap& m)
	{
		int R = m.Rows(), C = m.Columns();
		switch (r.I(0, 5)) {
		case 0: break;
		case 1: { double p = r.U(0.05, 0.45); for (auto& c : m.occ) c = r.P(p); break; }
		case 2: { // walls with gaps
			int n = r.I(1, 4);
			for (int k = 0; k < n; ++k) {
				bool vert = r.P(0.5);
				int at = r.I(0, (vert ? R : C) - 1), gap = r.P(0.2) ? -1 : r.I(0, (vert ? C : R) - 1);
				for (int i = 0; i < (vert ? C : R); ++i)
					if (i != gap)
						(vert ? m.At(at, i) : m.At(i, at)) = 1;
			}
			break;
		}
		case 3: { // checkerboard: only diagonal moves, all of them squeezed
			for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m.At(i, j) = (i + j) % 2 && !r.P(0.1);
			break;
		}
		case 4: { // diagonal walls
			int k = r.I(0, R + C);
			for (int i = 0; i < R; ++i) { int j = k - i; if (j >= 0 && j < C) m.At(i, j) = 1; if (r.P(0.5) && j + 1 >= 0 && j + 1 < C) m.At(i, j + 1) = 1; }
			break;
		}
		case 5: { // maze-like serpentine
			for (int i = 1; i < R; i += 2) { int gap = (i / 2) % 2 ? 0 : C - 1; for (int j = 0; j < C; ++j) m.At(i, j) = j != gap; }
			break;
		}
		}
	}

	/// Specification of the moves of the grid planner: 8-neighbours inside the map, target
	/// free, and a diagonal move is forbidden only when both cells it squeezes through are
	/// occupied.
	template <typename Occ, typename Cost>
	Graph GridGraph(int R, int C, Occ occ, Cost cost)
	{
		Graph g;
		g.Resize(R * C);
		for (int r = 0; r < R; ++r)
			for (int c = 0; c < C; ++c)
				for (int dr = -1; dr <= 1; ++dr)
					for (int dc = -1; dc <= 1; ++dc) {
						int a = r + dr, b = c + dc;
						if ((!dr && !dc) || a < 0 || b < 0 || a >= R || b >= C || occ(a, b))
							continue;
						if (dr && dc && occ(a, c) && occ(r, b))
							continue;
						g.Add(r * C + c, a * C + b, cost(r, c, a, b));
					}
		return g;
	}

	inline bool Close(double a, double b, double tol = 1e-9)
	{
		if (a == b)
			return true;
		return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
	}

	struct GridCost {
		int style = 0;
		uint64_t salt = 0;
		bool symmetric = true;
		double operator()(int r, int c, int a, int b) const
		{
			double d = std::sqrt((double)((r - a) * (r - a) + (c - b) * (c - b)));
			if (style == 0)
				return d;
			uint64_t k1 = (uint64_t)r * 7919 + c, k2 = (uint64_t)a * 7919 + b;
			if (symmetric && k1 > k2)
				std::swap(k1, k2);
			double u = (Mix(salt ^ Mix(k1 * 1000003 + k2)) % 1000) / 1000.0;
			return d * (1 + style * u);
		}
	};
}
