// Occupancy, frames, obstacle distance and Voronoi maps under arbitrary edit histories.
#include "maps.h"
using namespace maps;
using vf::Ctx;
using vf::Register;

namespace {
	constexpr double eps = 1e-6;

	// ------------------------------------------------------------------ C24
	Register frames("frames", 1, [](Ctx& c) {
		auto& r = c.rng;
		MapSpec m = RandomMap(r, 1, r.Rare(0.02) ? 1500 : 60);
		auto& map = *m.map;
		c.desc << "res " << m.res << " size " << m.width << "x" << m.height << " at (" << m.x0 << "," << m.y0 << ")";
		c.Sig(m.width); c.Sig(m.height); c.Sig(m.x0); c.Sig(m.res);
		c.Nontrivial();
		c.Check(map.Rows() == m.rows && map.Columns() == m.cols, "map-size", VF_MSG(map.Rows() << "x" << map.Columns() << " expected " << m.rows << "x" << m.cols));
		for (int rep = 0; rep < 3; ++rep) {
			if (rep > 0) { // the map can be moved at any time
				m.x0 = r.U(-100, 100);
				m.y0 = r.U(-100, 100);
				map.SetPosition({ m.x0, m.y0 });
			}
			c.Check((map.GetPosition() - Point2d(m.x0, m.y0)).norm() < eps, "position", VF_MSG("GetPosition " << map.GetPosition().transpose()));
			for (int k = 0; k < 40; ++k) {
				Point2d w(m.x0 + r.U(-0.8, 0.8) * m.width, m.y0 + r.U(-0.8, 0.8) * m.height);
				if (r.P(0.3)) w.x() = m.x0 - m.width / 2 + r.U(-1.2, 1.2) * m.res; // close to the border
				if (r.P(0.3)) w.y() = m.y0 - m.height / 2 + r.U(-1.2, 1.2) * m.res;
				Point2d l = map.WorldPositionToLocalPosition(w), l2 = map.WorldPositionToLocalPosition(w.x(), w.y());
				c.Check((l - Point2d(w.x() - m.x0, w.y() - m.y0)).norm() < eps && (l - l2).norm() == 0, "world-to-local", VF_MSG(w.transpose() << " -> " << l.transpose()));
				Point2d back = map.LocalPositionToWorldPosition(l), back2 = map.LocalPositionToWorldPosition(l.x(), l.y());
				c.Check((back - w).norm() < eps && (back - back2).norm() == 0, "local-to-world", VF_MSG(w.transpose() << " -> " << back.transpose()));
				// cell containing the point
				double fr = (w.x() - m.x0 + m.width / 2) / m.res, fc = (w.y() - m.y0 + m.height / 2) / m.res;
				if (std::fabs(fr - std::round(fr)) < 1e-6 || std::fabs(fc - std::round(fc)) < 1e-6)
					continue;
				int row = (int)std::floor(fr), col = (int)std::floor(fc);
				bool inside = row >= 0 && row < m.rows && col >= 0 && col < m.cols;
				c.Count(inside ? "points-inside" : "points-outside");
				for (auto cell : { map.WorldPositionToGridCell(w, false), map.WorldPositionToGridCell(w.x(), w.y(), false), map.LocalPositionToGridCell(l, false), map.LocalPositionToGridCell(l.x(), l.y(), false) })
					c.Check(cell.row == row && cell.col == col, "cell-of-position", VF_MSG("world " << w.transpose() << " is in cell " << row << "," << col << " not " << cell.row << "," << cell.col << " (map at " << m.x0 << "," << m.y0 << ")"));
				for (auto cell : { map.WorldPositionToGridCell(w), map.WorldPositionToGridCell(w.x(), w.y()), map.LocalPositionToGridCell(l), map.LocalPositionToGridCell(l.x(), l.y()) }) {
					if (inside)
						c.Check(cell.row == row && cell.col == col, "bounded-cell", VF_MSG("world " << w.transpose() << " -> " << cell.row << "," << cell.col));
					else
						c.Check(cell.row == -1 && cell.col == -1 && !cell.IsValid(), "bounded-cell-outside", VF_MSG("world " << w.transpose() << " outside -> " << cell.row << "," << cell.col));
				}
				c.Check(map.IsInsideMap(w) == inside, "inside-map", VF_MSG("world " << w.transpose() << " inside=" << map.IsInsideMap(w) << " cell " << fr << "," << fc << " of " << m.rows << "x" << m.cols));
			}
			for (int k = 0; k < 10; ++k) {
				GridCellPosition cell(r.I(-2, m.rows + 1), r.I(-2, m.cols + 1));
				bool inside = cell.row >= 0 && cell.row < m.rows && cell.col >= 0 && cell.col < m.cols;
				c.Check(map.IsInsideMap(cell) == inside, "inside-map-cell", VF_MSG(cell.row << "," << cell.col));
				Point2d w = map.GridCellToWorldPosition(cell), l = map.GridCellToLocalPosition(cell);
				Point2d el(-m.width / 2 + cell.row * m.res, -m.height / 2 + cell.col * m.res);
				c.Check((l - el).norm() < 1e-4 && (map.GridCellToLocalPosition(cell.row, cell.col) - l).norm() == 0, "cell-to-local", VF_MSG(cell.row << "," << cell.col << " -> " << l.transpose()));
				c.Check((w - el - Point2d(m.x0, m.y0)).norm() < 1e-4 && (map.GridCellToWorldPosition(cell.row, cell.col) - w).norm() == 0, "cell-to-world", VF_MSG(cell.row << "," << cell.col << " -> " << w.transpose()));
				Point2d mid = w + Point2d(m.res / 2, m.res / 2);
				auto again = map.WorldPositionToGridCell(mid, false);
				c.Check(again == cell, "cell-round-trip", VF_MSG("centre of " << cell.row << "," << cell.col << " is in " << again.row << "," << again.col));
			}
		}
	});

	Register grid("grid", 1, [](Ctx& c) {
		auto& r = c.rng;
		int rows = r.I(1, r.Rare(0.02) ? 700 : 12), cols = r.I(1, r.Rare(0.02) ? 700 : 12);
		Grid<int> g(rows, cols, 7);
		c.desc << rows << "x" << cols;
		c.Sig(rows); c.Sig(cols); c.Sig((int)(r.Next() % 1000));
		c.Nontrivial();
		std::map<Cell, int> model;
		for (int i = 0; i < rows; ++i)
			for (int j = 0; j < cols; ++j)
				c.Check(g[i][j] == 7, "grid-initial", VF_MSG(i << "," << j));
		for (int k = 0; k < 60; ++k) {
			int i = r.I(0, rows - 1), j = r.I(0, cols - 1), v = r.I(-1000, 1000);
			g[i][j] = v;
			model[{ i, j }] = v;
		}
		for (int i = 0; i < rows; ++i)
			for (int j = 0; j < cols; ++j)
				c.Check(g[i][j] == (model.count({ i, j }) ? model[{ i, j }] : 7), "grid-cell", VF_MSG(i << "," << j << " = " << g[i][j]));
		for (int k = 0; k < 20; ++k) {
			GridCellPosition p(r.I(0, rows - 1), r.I(0, cols - 1));
			std::set<Cell> expect, got;
			for (int a = -1; a <= 1; ++a)
				for (int b = -1; b <= 1; ++b)
					if ((a || b) && p.row + a >= 0 && p.row + a < rows && p.col + b >= 0 && p.col + b < cols)
						expect.insert({ p.row + a, p.col + b });
			auto ns = r.P(0.5) ? g.GetNeighbors(p) : p.GetNeighbors(rows, cols);
			for (auto& n : ns)
				got.insert({ n.row, n.col });
			c.Check(got == expect && ns.size() == expect.size(), "neighbours", VF_MSG("of " << p.row << "," << p.col << " in " << rows << "x" << cols << ": " << ns.size() << " expected " << expect.size()));
			GridCellPosition q(r.I(0, rows - 1), r.I(0, cols - 1));
			int dr = std::abs(p.row - q.row), dc = std::abs(p.col - q.col);
			c.Check(p.IsAdjacentTo(q) == (std::max(dr, dc) == 1) && p.IsAdjacentTo(q) == q.IsAdjacentTo(p), "adjacent", VF_MSG(p.row << "," << p.col << " " << q.row << "," << q.col));
			c.Check(p.IsDiagonalTo(q) == (dr != 0 && dc != 0), "diagonal", VF_MSG(p.row << "," << p.col << " " << q.row << "," << q.col));
			c.Check((p == q) == (dr == 0 && dc == 0) && (p != q) == !(p == q), "cell-equality", VF_MSG(p.row << "," << p.col << " " << q.row << "," << q.col));
			if (p == q)
				c.Check(std::hash<GridCellPosition>()(p) == std::hash<GridCellPosition>()(q), "cell-hash", VF_MSG(""));
		}
		GridCellPosition none;
		c.Check(!none.IsValid() && none.GetNeighbors(rows, cols).empty(), "invalid-cell", VF_MSG(""));
		for (auto [a, b] : { Cell { 0, 3 }, Cell { 3, 0 }, Cell { -1, 4 }, Cell { 0, 0 } }) {
			bool threw = false;
			try { Grid<int> bad(a, b, 0); } catch (const std::invalid_argument&) { threw = true; }
			c.Check(threw, "invalid-size", VF_MSG(a << "x" << b));
		}
	});

	// ------------------------------------------------------------------ C10
	struct Body {
		Ref<Obstacle> ref;
		ShapeSpec spec;
		Pose2d pose;
		bool added = false;
		std::set<Cell> cells; // while added: the cells it covered when it was added
	};

	/// Squared-free geometric test, independent of the rasteriser.
	double DistToSegment(const Point2d& p, const Point2d& a, const Point2d& b)
	{
		Point2d d = b - a;
		double l2 = d.squaredNorm();
		double t = l2 == 0 ? 0 : std::clamp((p - a).dot(d) / l2, 0.0, 1.0);
		return (p - a - t * d).norm();
	}

	Point2d ToWorld(const Pose2d& pose, const Point2d& p)
	{
		double ct = std::cos(pose.theta), st = std::sin(pose.theta);
		return { pose.x() + ct * p.x() - st * p.y(), pose.y() + st * p.x() + ct * p.y() };
	}

	/// Are these cells a rasterisation of this outline?
	void CheckRaster(Ctx& c, const MapSpec& m, const Body& b, const std::set<Cell>& cells)
	{
		std::vector<std::pair<Point2d, Point2d>> segs;
		for (auto& l : b.spec.loops)
			for (size_t i = 0; i < l.size(); ++i)
				segs.push_back({ ToWorld(b.pose, l[i]), ToWorld(b.pose, l[(i + 1) % l.size()]) });
		auto cellPos = [&](const Point2d& p) { return Point2d((p.x() - m.x0 + m.width / 2) / m.res, (p.y() - m.y0 + m.height / 2) / m.res); };
		for (auto& [row, col] : cells) {
			c.Check(row >= 0 && row < m.rows && col >= 0 && col < m.cols, "raster-inside", VF_MSG(row << "," << col));
			Point2d centre(row + 0.5, col + 0.5);
			double d = 1e300;
			for (auto& s : segs)
				d = std::min(d, DistToSegment(centre, cellPos(s.first), cellPos(s.second)));
			c.Check(d <= 1.45, "raster-sound", VF_MSG("cell " << row << "," << col << " is " << d << " cells away from the outline of " << b.spec.text));
		}
		for (auto& s : segs) {
			// one cell for each row (or column) which the segment crosses, next to where it crosses
			Point2d u = cellPos(s.first), v = cellPos(s.second);
			int major = std::fabs(v.x() - u.x()) >= std::fabs(v.y() - u.y()) ? 0 : 1, other = 1 - major;
			if (u[major] > v[major])
				std::swap(u, v);
			for (int x = (int)std::floor(u[major]) + 1; x < (int)std::floor(v[major]); ++x) {
				double y = u[other] + (x + 0.5 - u[major]) / (v[major] - u[major]) * (v[other] - u[other]) - 0.5;
				int size[2] = { m.rows, m.cols };
				if (x < 0 || x >= size[major] || y < 1.6 || y > size[other] - 2.6)
					continue;
				bool hit = false;
				for (int k = (int)std::ceil(y - 1.55); k <= (int)std::floor(y + 1.55) && !hit; ++k)
					hit = cells.count(major == 0 ? Cell { x, k } : Cell { k, x }) > 0;
				c.Count("crossings");
				if (!c.Check(hit, "raster-gap", VF_MSG("the outline of " << b.spec.text << " crosses " << (major == 0 ? "row " : "column ") << x << " at " << y << ", but no cell is occupied there")))
					return;
			}
		}
		for (auto& s : segs) {
			Point2d a = cellPos(s.first), e = cellPos(s.second);
			int n = (int)std::ceil((e - a).norm() * 4) + 1;
			for (int i = 0; i <= n; ++i) {
				Point2d p = a + (e - a) * ((double)i / n);
				if (p.x() < 2 || p.y() < 2 || p.x() > m.rows - 2 || p.y() > m.cols - 2)
					continue;
				bool hit = false;
				int r0 = (int)std::floor(p.x()), c0 = (int)std::floor(p.y());
				for (int x = r0 - 2; x <= r0 + 2 && !hit; ++x)
					for (int y = c0 - 2; y <= c0 + 2 && !hit; ++y)
						if (cells.count({ x, y }) && p.x() - x > -1.01 && p.x() - x < 2.01 && p.y() - y > -1.01 && p.y() - y < 2.01)
							hit = true;
				if (!c.Check(hit, "raster-complete", VF_MSG("outline point " << p.transpose() << " (cells) of " << b.spec.text << " has no occupied cell next to it")))
					return;
			}
		}
	}

	void CheckOccupancy(Ctx& c, MapSpec& m, std::vector<Body>& bodies)
	{
		int n = 0;
		std::map<Cell, std::vector<int>> cover;
		for (size_t i = 0; i < bodies.size(); ++i)
			if (bodies[i].added) {
				++n;
				for (auto& cell : bodies[i].cells)
					cover[cell].push_back((int)i);
			}
		c.Check(m.map->GetNumObstacles() == n, "obstacle-count", VF_MSG(m.map->GetNumObstacles() << " expected " << n));
		std::map<int, int> idOf; // body -> value
		std::map<int, int> bodyOf;
		for (int row = 0; row < m.rows; ++row)
			for (int col = 0; col < m.cols; ++col) {
				auto it = cover.find({ row, col });
				bool expect = it != cover.end();
				bool got = m.map->IsOccupied({ row, col });
				int v = m.map->GetOccupancyValue(row, col);
				c.Check(got == expect, expect ? "occupied-missing" : "occupied-ghost", VF_MSG("cell " << row << "," << col << " occupied=" << got << " covered by " << (expect ? it->second.size() : 0) << " obstacles"));
				c.Check((v >= 0) == got && v == m.map->GetOccupancyValue({ row, col }), "value-sign", VF_MSG(v));
				if (expect && got && it->second.size() == 1) { // the value identifies the obstacle
					int b = it->second[0];
					auto [a, fresh] = idOf.insert({ b, v });
					c.Check(fresh || a->second == v, "value-one-per-obstacle", VF_MSG("obstacle has values " << a->second << " and " << v));
					auto [e, fresh2] = bodyOf.insert({ v, b });
					c.Check(fresh2 || e->second == b, "value-distinct", VF_MSG("two obstacles share the value " << v));
				}
			}
		for (auto& [cell, bs] : cover)
			if (bs.size() > 1) {
				int v = m.map->GetOccupancyValue(cell.first, cell.second);
				bool ok = bodyOf.count(v) == 0;
				for (int b : bs)
					ok = ok || !idOf.count(b) || idOf[b] == v;
				c.Check(ok, "value-of-shared", VF_MSG("cell " << cell.first << "," << cell.second << " names an obstacle which does not cover it"));
				c.Count("shared-cells");
			}
	}

	std::set<Cell> CellsOf(const Body& b, const MapSpec& m)
	{
		std::set<Cell> s;
		for (auto& cell : b.ref->GetBoundaryGridCellPosition(*m.map))
			s.insert({ cell.row, cell.col });
		return s;
	}

	Body NewBody(Ctx& c, const MapSpec& m, double size, double margin = 0.2)
	{
		Body b;
		b.ref = makeRef<Obstacle>();
		b.spec = RandomShape(c.rng, size);
		b.pose = RandomPose(c.rng, m, margin);
		b.ref->SetShape(b.spec.shape);
		b.ref->SetPose(b.pose);
		return b;
	}

	/// One random edit of the map; returns a short name.
	std::string Edit(Ctx& c, MapSpec& m, std::vector<Body>& bodies, double size, size_t maxBodies, bool disjoint = false)
	{
		auto& r = c.rng;
		int op = r.I(0, 9);
		if (bodies.empty() || (op < 3 && bodies.size() < maxBodies)) {
			Body b = NewBody(c, m, size);
			auto cells = CellsOf(b, m);
			if (disjoint)
				for (auto& o : bodies)
					if (o.added)
						for (auto& x : cells)
							if (o.cells.count(x))
								return "skip";
			b.cells = cells;
			bool ok = m.map->AddObstacle(b.ref);
			c.Check(ok, "add-new", VF_MSG("AddObstacle of a new obstacle returned false"));
			b.added = true;
			bodies.push_back(b);
			return "add";
		}
		Body& b = bodies[r.Next() % bodies.size()];
		if (op < 6) { // toggle
			if (b.added) {
				c.Check(m.map->RemoveObstacle(b.ref), "remove", VF_MSG("RemoveObstacle of a registered obstacle returned false"));
				b.added = false;
				b.cells.clear();
				return "remove";
			}
			auto cells = CellsOf(b, m);
			if (disjoint)
				for (auto& o : bodies)
					if (o.added)
						for (auto& x : cells)
							if (o.cells.count(x))
								return "skip";
			c.Check(m.map->AddObstacle(b.ref), "add-again", VF_MSG("AddObstacle of a removed obstacle returned false"));
			b.added = true;
			b.cells = cells;
			return "readd";
		}
		if (op == 6) { // repeated registration or removal
			if (b.added)
				c.Check(!m.map->AddObstacle(b.ref), "add-twice", VF_MSG("second AddObstacle returned true"));
			else
				c.Check(!m.map->RemoveObstacle(b.ref), "remove-twice", VF_MSG("RemoveObstacle of an unregistered obstacle returned true"));
			return "repeat";
		}
		if (op == 7) { // the owner moves the obstacle, registered or not
			b.pose = RandomPose(r, m, 0.2);
			b.ref->SetPose(b.pose);
			return b.added ? "pose-while-added" : "pose";
		}
		if (op == 8) {
			b.spec = RandomShape(r, size);
			b.ref->SetShape(b.spec.shape);
			return b.added ? "shape-while-added" : "shape";
		}
		// move: remove, set pose, add
		if (b.added) {
			c.Check(m.map->RemoveObstacle(b.ref), "remove", VF_MSG("move"));
			b.added = false;
			b.cells.clear();
		}
		b.pose = RandomPose(r, m, 0.1);
		b.ref->SetPose(b.pose);
		auto cells = CellsOf(b, m);
		if (disjoint)
			for (auto& o : bodies)
				if (o.added)
					for (auto& x : cells)
						if (o.cells.count(x))
							return "remove";
		c.Check(m.map->AddObstacle(b.ref), "add-again", VF_MSG("move"));
		b.added = true;
		b.cells = cells;
		return "move";
	}

	/// The map moves, or gets another size. Its obstacles are drawn where they are by now, or
	/// all gone. Returns true if the size changed: diagrams of the map are void then.
	bool Relocate(Ctx& c, MapSpec& m, std::vector<Body>& bodies, bool disjoint, int hi)
	{
		auto& r = c.rng;
		if (r.P(0.5)) { // new obstacles are drawn relative to the new position
			m.x0 += r.U(-5, 5) * m.res;
			m.y0 += r.U(-5, 5) * m.res;
			m.map->SetPosition({ m.x0, m.y0 });
			c.desc << " move-map";
			c.Count("map-moves");
			return false;
		}
		if (r.P(0.8)) {
			m.rows = std::clamp(m.rows + r.I(-6, 6), 2, hi);
			m.cols = std::clamp(m.cols + r.I(-6, 6), 2, hi);
			m.width = (float)((m.rows - 0.3) * m.res);
			m.height = (float)((m.cols - 0.3) * m.res);
		}
		m.map->InitializeSize((float)m.width, (float)m.height);
		c.desc << " resize " << m.rows << "x" << m.cols;
		c.Count("map-resizes");
		bool kept = m.map->GetNumObstacles() > 0;
		for (size_t i = 0; i < bodies.size(); ++i) {
			auto& b = bodies[i];
			if (!b.added)
				continue;
			b.added = kept;
			b.cells.clear();
			if (!kept)
				continue;
			b.cells = CellsOf(b, m);
			bool overlap = false;
			for (size_t k = 0; disjoint && k < i; ++k)
				if (bodies[k].added)
					for (auto& x : b.cells)
						overlap = overlap || bodies[k].cells.count(x);
			if (overlap) {
				c.Check(m.map->RemoveObstacle(b.ref), "remove", VF_MSG("after a change of the size"));
				b.added = false;
				b.cells.clear();
			}
		}
		return true;
	}

	/// Many obstacles at once.
	void Populate(Ctx& c, MapSpec& m, std::vector<Body>& bodies, double size, int count)
	{
		for (int i = 0; i < count; ++i) {
			Body b = NewBody(c, m, size);
			b.cells = CellsOf(b, m);
			c.Check(m.map->AddObstacle(b.ref), "add-new", VF_MSG("AddObstacle of a new obstacle returned false"));
			b.added = true;
			bodies.push_back(b);
		}
		c.desc << " " << count << " obstacles";
	}

	void OccupancyCase(Ctx& c, bool large)
	{
		auto& r = c.rng;
		MapSpec m = large ? RandomMap(r, 30, 300) : RandomMap(r, 2, 24);
		double size = (large ? r.U(0.02, 0.3) : r.U(0.1, 0.9)) * std::max(m.width, m.height);
		std::vector<Body> bodies;
		int n = large ? r.I(50, 400) : r.I(3, 25);
		c.desc << m.rows << "x" << m.cols << " res " << m.res << ":";
		if (large)
			Populate(c, m, bodies, size, r.I(20, 600));
		for (int k = 0; k < n; ++k) {
			if (r.P(0.05))
				Relocate(c, m, bodies, false, large ? 300 : 30);
			auto op = Edit(c, m, bodies, size, large ? 800 : 6);
			c.desc << " " << op;
			c.Count("op:" + op);
			if (r.P(0.3)) { m.map->Update(); c.desc << " update"; }
			if (large && k % 40 && k + 1 < n)
				continue;
			CheckOccupancy(c, m, bodies);
			if (c.Failed())
				return;
		}
		uint64_t occ = 0;
		for (auto& b : bodies)
			for (auto& x : b.cells)
				occ = vf::Mix(occ ^ (x.first * 977 + x.second));
		c.Sig(occ); c.Sig(n); c.Sig(m.rows);
		c.Max("obstacles", (long)bodies.size());
		if (bodies.size() > 1)
			c.Nontrivial();
	}
	Register occupancy("occupancy", 2, [](Ctx& c) { OccupancyCase(c, false); });
	Register occupancyLarge("occupancy-large", 0, [](Ctx& c) { OccupancyCase(c, true); });

	Register raster("raster", 1, [](Ctx& c) {
		auto& r = c.rng;
		MapSpec m = RandomMap(r, 3, 50);
		Body b = NewBody(c, m, r.U(0.1, 1.5) * std::max(m.width, m.height), 0.3);
		c.desc << m.rows << "x" << m.cols << " res " << m.res << " " << b.spec.text << " at " << b.pose.x() << "," << b.pose.y() << "," << b.pose.theta;
		c.Sig(b.pose.x()); c.Sig(b.pose.theta);
		// vertices
		std::vector<Point2d> expect, got = b.ref->GetBoundaryWorldPosition();
		for (auto& l : b.spec.loops)
			for (auto& p : l)
				expect.push_back(ToWorld(b.pose, p));
		bool same = expect.size() == got.size();
		for (size_t i = 0; same && i < got.size(); ++i)
			same = (expect[i] - got[i]).norm() < 1e-4 * (1 + expect[i].norm());
		c.Check(same, "outline", VF_MSG("vertices of " << b.spec.text << ": got " << got.size() << " expected " << expect.size()));
		auto cells = CellsOf(b, m);
		if (cells.size() > 2)
			c.Nontrivial();
		c.Count("cells", (long)cells.size());
		CheckRaster(c, m, b, cells);
		// a larger map of the same cells sees the same outline
		double q = r.Pick({ 0.25, 0.5, 1.0, 2.0 });
		int rows = r.I(2, 30), cols = r.I(2, 30), pad = r.I(1, 12);
		ObstacleListOccupancyMap small((float)q), large((float)q);
		double ox = r.I(-20, 20), oy = r.I(-20, 20);
		small.SetPosition({ ox, oy });
		large.SetPosition({ ox, oy });
		small.InitializeSize((float)(rows * q), (float)(cols * q));
		large.InitializeSize((float)((rows + 2 * pad) * q), (float)((cols + 2 * pad) * q));
		auto ob = makeRef<Obstacle>();
		auto shape = RandomShape(r, r.U(0.2, 2.0) * std::max(rows, cols) * q);
		ob->SetShape(shape.shape);
		ob->SetPose(Pose2d(ox + r.U(-0.7, 0.7) * rows * q, oy + r.U(-0.7, 0.7) * cols * q, r.U(-M_PI, M_PI)));
		std::set<Cell> in, want;
		for (auto& x : ob->GetBoundaryGridCellPosition(small))
			in.insert({ x.row, x.col });
		for (auto& x : ob->GetBoundaryGridCellPosition(large))
			if (x.row >= pad && x.row < pad + rows && x.col >= pad && x.col < pad + cols)
				want.insert({ x.row - pad, x.col - pad });
		c.Count("clipped-cells", (long)want.size());
		c.Check(in == want, "raster-clip", VF_MSG(shape.text << " covers " << in.size() << " cells of a " << rows << "x" << cols << " map, but " << want.size() << " of them on a map that continues " << pad << " cells further"));
		// and registering it marks exactly these cells
		small.AddObstacle(ob);
		for (int i = 0; i < rows; ++i)
			for (int j = 0; j < cols; ++j)
				c.Check(small.IsOccupied({ i, j }) == (bool)in.count({ i, j }), "raster-marks", VF_MSG("cell " << i << "," << j << " of " << shape.text));
	});

	// ------------------------------------------------------------------ C11
	/// Exact squared distance (cells) to the closest obstacle cell; -1 if there is none.
	std::vector<long> Exact(int rows, int cols, const std::vector<Cell>& sources)
	{
		return ExactDistance(rows, cols, sources);
	}

	/// The brush fire propagates sources cell by cell and so can miss the closest one by a
	/// fraction of a cell: the excess allowed.
	constexpr double brushfireExcess = 0.3;

	std::vector<Cell> OccupiedCells(MapSpec& m)
	{
		std::vector<Cell> v;
		for (int i = 0; i < m.rows; ++i)
			for (int j = 0; j < m.cols; ++j)
				if (m.map->IsOccupied({ i, j }))
					v.push_back({ i, j });
		return v;
	}

	void CheckDistance(Ctx& c, MapSpec& m, const std::vector<Cell>& occ)
	{
		auto exact = Exact(m.rows, m.cols, occ);
		auto& dm = *m.map->GetObstacleDistanceMap();
		double diag = std::hypot(m.rows, m.cols) * m.res;
		for (int i = 0; i < m.rows; ++i)
			for (int j = 0; j < m.cols; ++j) {
				double got = dm.GetDistanceToNearestObstacle(i, j);
				auto cell = dm.GetNearestObstacleCell(i, j);
				c.Check(got == dm.GetDistanceToNearestObstacle({ i, j }) && cell == dm.GetNearestObstacleCell(GridCellPosition(i, j)), "overload", VF_MSG(i << "," << j));
				long e = exact[(size_t)i * m.cols + j];
				if (e < 0) {
					c.Check(got > diag, "distance-empty", VF_MSG("no obstacle, but cell " << i << "," << j << " is at " << got));
					c.Check(!cell.IsValid(), "nearest-empty", VF_MSG("no obstacle, but nearest of " << i << "," << j << " is " << cell.row << "," << cell.col));
					continue;
				}
				double ed = std::sqrt((double)e) * m.res;
				c.Check(got >= ed - 1e-4 * (1 + ed), "distance-too-small", VF_MSG("cell " << i << "," << j << ": " << got << " exact " << ed));
				double ex = (got - ed) / m.res;
				c.Max("brushfire-excess-millicells", (long)(1000 * ex));
				c.Check(ex <= brushfireExcess, "distance-too-large", VF_MSG("cell " << i << "," << j << ": " << got << " exact " << ed));
				if (e == 0)
					c.Check(got == 0, "distance-obstacle", VF_MSG("occupied cell " << i << "," << j << " is at " << got));
				if (e <= 2)
					c.Check(std::fabs(ex) < 1e-4, "distance-next", VF_MSG("cell " << i << "," << j << ": " << got << " exact " << ed));
				bool in = cell.row >= 0 && cell.row < m.rows && cell.col >= 0 && cell.col < m.cols;
				if (c.Check(in && m.map->IsOccupied(cell), "nearest-occupied", VF_MSG("nearest obstacle of " << i << "," << j << " is the free cell " << cell.row << "," << cell.col))) {
					double dd = std::hypot(cell.row - i, cell.col - j) * m.res;
					c.Check(std::fabs(dd - got) < 1e-4 * (1 + dd), "nearest-distance", VF_MSG("cell " << i << "," << j << ": distance " << got << " but the nearest cell is at " << dd));
				}
			}
	}

	void DistanceCase(Ctx& c, bool large)
	{
		auto& r = c.rng;
		MapSpec m = large ? RandomMap(r, 20, 200) : RandomMap(r, 2, c.thorough && r.P(0.2) ? 60 : 26);
		double size = r.U(0.02, large ? 0.3 : 0.7) * std::max(m.width, m.height);
		std::vector<Body> bodies;
		int n = large ? r.I(3, 30) : r.I(2, 14);
		if (large && r.P(0.5))
			Populate(c, m, bodies, size, r.I(5, 400));
		c.desc << m.rows << "x" << m.cols << " res " << m.res << ":";
		Ref<GVD> gvd;
		uint64_t h = 0;
		for (int k = 0; k < n; ++k) {
			if (r.P(0.04) && Relocate(c, m, bodies, false, large ? 200 : 30))
				gvd = nullptr;
			int batch = r.I(1, large ? 60 : 3);
			for (int b = 0; b < batch; ++b)
				c.desc << " " << Edit(c, m, bodies, size, large ? 600 : 10);
			if (!gvd && r.P(0.15)) {
				gvd = makeRef<GVD>(m.map);
				c.desc << " gvd";
			}
			if (gvd && r.P(0.5))
				gvd->Update();
			else
				m.map->Update();
			auto occ = OccupiedCells(m);
			c.Count(occ.empty() ? "updates-empty" : "updates");
			CheckDistance(c, m, occ);
			for (auto& o : occ)
				h = vf::Mix(h ^ (o.first * 1009 + o.second));
			if (gvd)
				for (int q = 0; q < 20; ++q) {
					Point2d w(m.x0 + r.U(-0.6, 0.6) * m.width, m.y0 + r.U(-0.6, 0.6) * m.height), p(1e9, 1e9);
					auto cell = m.map->WorldPositionToGridCell(w);
					float d = -1;
					bool in = m.map->IsInsideMap(w);
					c.Check(gvd->GetDistanceToNearestObstacle(w, d) == in, "world-query-inside", VF_MSG(w.transpose()));
					c.Check(gvd->GetNearestObstaclePosition(w, p) == in, "world-query-inside", VF_MSG(w.transpose()));
					if (in && !occ.empty()) {
						c.Check(d == m.map->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(cell) && d == gvd->GetDistanceToNearestObstacle(cell) && d == gvd->GetDistanceToNearestObstacle(cell.row, cell.col), "world-query-distance", VF_MSG(w.transpose() << " " << d));
						auto near = gvd->GetNearestObstacleCell(cell);
						c.Check((p - m.map->GridCellToWorldPosition(near)).norm() < 1e-6 && near == gvd->GetNearestObstacleCell(cell.row, cell.col), "world-query-position", VF_MSG(p.transpose()));
					}
				}
			if (c.Failed())
				return;
		}
		c.Sig(h); c.Sig(n);
		if (bodies.size() > 1)
			c.Nontrivial();
	}
	Register distance("distance", 2, [](Ctx& c) { DistanceCase(c, false); });
	Register distanceLarge("distance-large", 0, [](Ctx& c) { DistanceCase(c, true); });

	// ------------------------------------------------------------------ C12
	void CheckVoronoi(Ctx& c, MapSpec& m, GVD& gvd, std::vector<Body>& bodies, bool disjoint, const std::vector<Cell>& occ)
	{
		std::vector<Cell> edges;
		for (int i = 0; i < m.rows; ++i)
			for (int j = 0; j < m.cols; ++j)
				if (gvd.GetDistanceToNearestVoronoiEdge(i, j) == 0)
					edges.push_back({ i, j });
		c.Count("edge-cells", (long)edges.size());
		auto exact = Exact(m.rows, m.cols, edges);
		double diag = std::hypot(m.rows, m.cols) * m.res;
		for (int i = 0; i < m.rows; ++i)
			for (int j = 0; j < m.cols; ++j) {
				double dv = gvd.GetDistanceToNearestVoronoiEdge(i, j), dO = gvd.GetDistanceToNearestObstacle(i, j);
				auto cell = gvd.GetNearestVoronoiEdgeCell(i, j);
				float cost = gvd.GetPathCost(i, j);
				c.Check(dv == gvd.GetDistanceToNearestVoronoiEdge({ i, j }) && cell == gvd.GetNearestVoronoiEdgeCell(GridCellPosition(i, j)) && cost == gvd.GetPathCost(GridCellPosition(i, j)), "overload", VF_MSG(i << "," << j));
				c.Check(cost >= 0 && cost <= 1 + 1e-5, "cost-range", VF_MSG("cell " << i << "," << j << " cost " << cost));
				long e = exact[(size_t)i * m.cols + j];
				if (e < 0) {
					c.Check(dv > diag && !cell.IsValid(), "edge-distance-empty", VF_MSG("no edge, but cell " << i << "," << j << " is at " << dv));
					double limit = dO >= gvd.dMax ? 0 : (gvd.alpha / (gvd.alpha + dO)) * (dO - gvd.dMax) * (dO - gvd.dMax) / (gvd.dMax * gvd.dMax);
					c.Check(cost == 0 || std::fabs(cost - limit) < 0.01, "cost-without-edge", VF_MSG("cell " << i << "," << j << " cost " << cost << " without any edge, " << dO << " from the nearest obstacle"));
					continue;
				}
				double ed = std::sqrt((double)e) * m.res;
				c.Check(dv >= ed - 1e-4 * (1 + ed) && (dv - ed) / m.res <= brushfireExcess, "edge-distance", VF_MSG("cell " << i << "," << j << ": " << dv << " exact " << ed));
				c.Max("edge-excess-millicells", (long)(1000 * (dv - ed) / m.res));
				bool in = cell.row >= 0 && cell.row < m.rows && cell.col >= 0 && cell.col < m.cols;
				if (c.Check(in, "edge-nearest-inside", VF_MSG(cell.row << "," << cell.col))) {
					c.Check(gvd.GetDistanceToNearestVoronoiEdge(cell) == 0, "edge-nearest-is-edge", VF_MSG(cell.row << "," << cell.col));
					double dd = std::hypot(cell.row - i, cell.col - j) * m.res;
					c.Check(std::fabs(dd - dv) < 1e-4 * (1 + dd), "edge-nearest-distance", VF_MSG("cell " << i << "," << j << ": " << dv << " but the nearest edge is at " << dd));
				}
				// potential field
				double want = dO >= gvd.dMax ? 0 : (gvd.alpha / (gvd.alpha + dO)) * (dv / (dO + dv)) * (dO - gvd.dMax) * (dO - gvd.dMax) / (gvd.dMax * gvd.dMax);
				c.Check(std::fabs(cost - want) < 1e-4, "cost-field", VF_MSG("cell " << i << "," << j << " cost " << cost << " expected " << want));
				c.Count("cost-cells");
			}
		// the diagram separates the cells by the obstacle they are reported to be closest to
		auto label = [&](int i, int j, Cell& o) {
			auto q = gvd.GetNearestObstacleCell(i, j);
			o = { q.row, q.col };
			bool in = q.row >= 0 && q.row < m.rows && q.col >= 0 && q.col < m.cols;
			return in ? m.map->GetOccupancyValue(q.row, q.col) : -1;
		};
		auto sq = [](const Cell& a, const Cell& b) { return (long)(a.first - b.first) * (a.first - b.first) + (long)(a.second - b.second) * (a.second - b.second); };
		auto isEdge = [&](int i, int j) { return gvd.GetDistanceToNearestVoronoiEdge(i, j) == 0; };
		for (int i = 0; i < m.rows; ++i)
			for (int j = 0; j < m.cols; ++j) {
				Cell o, q;
				int l = label(i, j, o);
				bool split = false;
				for (int a = -1; a <= 1; ++a)
					for (int b = -1; b <= 1; ++b) {
						int x = i + a, y = j + b;
						if ((a == 0 && b == 0) || x < 0 || y < 0 || x >= m.rows || y >= m.cols)
							continue;
						int k = label(x, y, q);
						if (l < 0 || k < 0 || l == k)
							continue;
						split = true;
						if (sq({ i, j }, o) <= 1 && sq({ x, y }, q) <= 1)
							continue; // next to the obstacles
						if (std::abs(o.first - q.first) <= 1 && std::abs(o.second - q.second) <= 1)
							continue; // obstacles which touch
						if (sq({ i, j }, q) < sq({ i, j }, o) || sq({ x, y }, o) < sq({ x, y }, q))
							continue; // the propagation error
						c.Count("boundary-pairs");
						c.Check(isEdge(i, j) || isEdge(x, y), "boundary-unmarked", VF_MSG("cell " << i << "," << j << " is closest to obstacle " << l << ", its neighbour " << x << "," << y << " to " << k << ", but neither is on the diagram"));
					}
				if (isEdge(i, j))
					c.Check(split, "edge-inside-region", VF_MSG("cell " << i << "," << j << " is on the diagram, but all cells around it are closest to obstacle " << l));
			}
		// where the edges are
		std::vector<std::vector<long>> per;
		for (auto& b : bodies)
			if (b.added && !b.cells.empty())
				per.push_back(Exact(m.rows, m.cols, std::vector<Cell>(b.cells.begin(), b.cells.end())));
		if (per.size() < 2) {
			c.Check(edges.empty(), "edge-without-pair", VF_MSG(edges.size() << " Voronoi edge cells with " << per.size() << " obstacles on the map; first " << (edges.empty() ? -1 : edges[0].first) << "," << (edges.empty() ? -1 : edges[0].second)));
			return;
		}
		c.Count("maps-with-pairs");
		auto second = [&](int i, int j, double& a, double& b) {
			a = b = 1e300;
			int which = -1;
			for (size_t k = 0; k < per.size(); ++k) {
				double d = std::sqrt((double)per[k][(size_t)i * m.cols + j]);
				if (d < a) { b = a; a = d; which = (int)k; }
				else if (d < b) b = d;
			}
			return which;
		};
		for (auto& [i, j] : edges) {
			double a, b;
			second(i, j, a, b);
			c.Max("edge-imbalance-millicells", (long)(1000 * (b - a)));
			c.Check(b - a <= 2.0, "edge-balanced", VF_MSG("edge cell " << i << "," << j << " is " << a << " cells from the closest obstacle and " << b << " from the next"));
		}
		std::set<Cell> es(edges.begin(), edges.end());
		for (int i = 0; i < m.rows; ++i)
			for (int j = 0; j < m.cols; ++j)
				for (auto [x, y] : { Cell { i + 1, j }, Cell { i, j + 1 } }) {
					if (x >= m.rows || y >= m.cols)
						continue;
					double a, b, a2, b2;
					int w = second(i, j, a, b), w2 = second(x, y, a2, b2);
					if (w == w2 || b - a < 0.35 || b2 - a2 < 0.35 || a < 2.5 || a2 < 2.5)
						continue;
					c.Count("ridge-pairs");
					bool hit = false;
					for (int u = -1; u <= 1 && !hit; ++u)
						for (int v = -1; v <= 1 && !hit; ++v)
							hit = es.count({ i + u, j + v }) || es.count({ x + u, y + v });
					c.Check(hit, "edge-missing", VF_MSG("cells " << i << "," << j << " and " << x << "," << y << " belong to different obstacles, but no Voronoi edge is next to them"));
				}
	}

	void VoronoiCase(Ctx& c, bool large)
	{
		auto& r = c.rng;
		MapSpec m = large ? RandomMap(r, 20, 120) : RandomMap(r, 3, c.thorough && r.P(0.2) ? 50 : 26);
		bool disjoint = r.P(0.7);
		double size = r.U(0.02, large ? 0.2 : 0.5) * std::max(m.width, m.height);
		std::vector<Body> bodies;
		int n = large ? r.I(2, 20) : r.I(2, 12);
		c.desc << m.rows << "x" << m.cols << " res " << m.res << (disjoint ? " disjoint" : "") << ":";
		Ref<GVD> gvd;
		uint64_t h = 0;
		for (int k = 0; k < n; ++k) {
			if (r.P(0.04) && Relocate(c, m, bodies, disjoint, large ? 120 : 30))
				gvd = nullptr;
			int batch = r.I(1, large ? 40 : 4);
			for (int b = 0; b < batch; ++b)
				c.desc << " " << Edit(c, m, bodies, size, large ? 60 : 8, disjoint);
			if (r.P(0.3)) {
				m.map->Update();
				c.desc << " update";
			}
			if (!gvd && r.P(0.4))
				gvd = makeRef<GVD>(m.map);
			if (!gvd)
				continue;
			if (r.P(0.1)) // a second diagram of the same map
				gvd = makeRef<GVD>(m.map);
			gvd->Update();
			c.desc << " gvd";
			auto occ = OccupiedCells(m);
			CheckDistance(c, m, occ);
			CheckVoronoi(c, m, *gvd, bodies, disjoint, occ);
			for (auto& o : occ)
				h = vf::Mix(h ^ (o.first * 1009 + o.second));
			for (int q = 0; q < 10; ++q) {
				Point2d w(m.x0 + r.U(-0.6, 0.6) * m.width, m.y0 + r.U(-0.6, 0.6) * m.height), p;
				auto cell = m.map->WorldPositionToGridCell(w);
				bool in = m.map->IsInsideMap(w);
				float d = -1, cost = -1;
				c.Check(gvd->GetDistanceToNearestVoronoiEdge(w, d) == in && gvd->GetPathCost(w, cost) == in && gvd->GetNearestVoronoiEdgePosition(w, p) == in, "world-query-inside", VF_MSG(w.transpose()));
				if (in) {
					c.Check(d == gvd->GetDistanceToNearestVoronoiEdge(cell) && cost == gvd->GetPathCost(cell), "world-query-values", VF_MSG(w.transpose()));
					if (gvd->GetNearestVoronoiEdgeCell(cell).IsValid())
						c.Check((p - m.map->GridCellToWorldPosition(gvd->GetNearestVoronoiEdgeCell(cell))).norm() < 1e-6, "world-query-edge", VF_MSG(p.transpose()));
				}
			}
			if (c.Failed())
				return;
		}
		c.Sig(h); c.Sig(n);
		if (bodies.size() > 1 && gvd)
			c.Nontrivial();
	}
	Register voronoi("voronoi", 2, [](Ctx& c) { VoronoiCase(c, false); });
	Register voronoiLarge("voronoi-large", 0, [](Ctx& c) { VoronoiCase(c, true); });

	// ------------------------------------------------------------------ C25
	Register image("image", 1, [](Ctx& c) {
		auto& r = c.rng;
		bool large = r.Rare(0.01); // rows of more than 256 pixels, more obstacles than usual
		MapSpec m = large ? RandomMap(r, 20, 400) : RandomMap(r, 2, 26);
		double size = r.U(0.02, 0.5) * std::max(m.width, m.height);
		std::vector<Body> bodies;
		Ref<GVD> gvd;
		c.desc << m.rows << "x" << m.cols << " res " << m.res << ":";
		c.Sig(m.width); c.Sig(size);
		int n = r.I(1, 4);
		for (int k = 0; k < n; ++k) {
			int edits = r.I(0, large ? 20 : 4);
			for (int b = 0; b < edits; ++b)
				c.desc << " " << Edit(c, m, bodies, size, 8, r.P(0.5));
			if (!gvd)
				gvd = makeRef<GVD>(m.map);
			gvd->Update();
			gvd->Visualize("map.ppm");
			vf::Image img;
			if (!c.Check(img.Read("map.ppm"), "image-format", VF_MSG("not a binary pixmap of the announced size")))
				return;
			c.Check(img.width == m.rows && img.height == m.cols, "image-size", VF_MSG(img.width << "x" << img.height << " for a map of " << m.rows << "x" << m.cols));
			if (c.Failed())
				return;
			auto occ = OccupiedCells(m);
			std::set<Cell> os(occ.begin(), occ.end());
			std::map<int, double> hue; // by obstacle
			for (int i = 0; i < m.rows; ++i)
				for (int j = 0; j < m.cols; ++j) {
					auto p = img.At(i, m.cols - 1 - j);
					int hi = std::max({ p[0], p[1], p[2] }), lo = std::min({ p[0], p[1], p[2] });
					if (os.count({ i, j }) || occ.empty()) {
						c.Check(hi == 0, "image-obstacle", VF_MSG("cell " << i << "," << j << (occ.empty() ? " of an empty map" : " is occupied") << ", its pixel is " << p[0] << "," << p[1] << "," << p[2]));
						continue;
					}
					double want = 255 * (1 - gvd->GetPathCost(i, j));
					c.Check(std::fabs(hi - want) <= 2, "image-brightness", VF_MSG("cell " << i << "," << j << ": brightness " << hi << ", cost " << gvd->GetPathCost(i, j)));
					c.Check(lo <= 1, "image-saturation", VF_MSG("cell " << i << "," << j << ": " << p[0] << "," << p[1] << "," << p[2]));
					c.Count("pixels");
					if (hi < 150)
						continue;
					double h, mid = (double)(p[0] + p[1] + p[2] - hi - lo) / hi; // in sixths of a turn
					if (p[0] == hi) h = p[2] <= p[1] ? mid : 6 - mid;
					else if (p[1] == hi) h = p[2] <= p[0] ? 2 - mid : 2 + mid;
					else h = p[0] <= p[1] ? 4 - mid : 4 + mid;
					int id = m.map->GetOccupancyValue(gvd->GetNearestObstacleCell(i, j));
					auto it = hue.emplace(id, h).first;
					c.Check(std::fabs(std::remainder(it->second - h, 6)) < 0.05, "image-hue", VF_MSG("cells of the region of obstacle " << id << " have hues " << it->second << " and " << h));
				}
			for (auto a = hue.begin(); a != hue.end(); ++a)
				for (auto b = std::next(a); b != hue.end(); ++b) {
					c.Count("hue-pairs");
					c.Check(std::fabs(std::remainder(a->second - b->second, 6)) > 0.05, "image-hue-distinct", VF_MSG("obstacles " << a->first << " and " << b->first << " have the same hue " << a->second));
				}
			if (hue.size() > 1)
				c.Nontrivial();
			if (c.Failed())
				return;
		}
		gvd->Visualize("no/such/directory/map.ppm"); // nothing to write to
	});
}
