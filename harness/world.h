// A world for the continuous planners: state space, map with obstacles, validator.
#pragma once
#include "maps.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_occupancy_map.h"

namespace maps {
	struct World {
		Ref<StateSpaceSE2> space;
		Ref<ObstacleListOccupancyMap> map;
		Ref<StateValidatorOccupancyMap> validator;
		Pose2d lb, ub; // in the local frame
		double x0 = 0, y0 = 0, res = 1;
		int rows = 0, cols = 0;
		double gx0 = 0, gy0 = 0;
		std::vector<Cell> occ;
		std::vector<long> exact;
		std::vector<Ref<Obstacle>> obstacles;

		/// Exact distance between the cell of a position and the closest obstacle cell; -1 outside the grid.
		double CellDist(const Point2d& w) const
		{
			int r = (int)std::floor((w.x() - x0 - gx0) / res), c = (int)std::floor((w.y() - y0 - gy0) / res);
			if (r < 0 || c < 0 || r >= rows || c >= cols)
				return -1;
			long e = exact[(size_t)r * cols + c];
			return e < 0 ? 1e9 : std::sqrt((double)e) * res;
		}
		/// How far a position is inside the bounds and the grid (negative: outside).
		double Border(const Point2d& w) const
		{
			double x = w.x() - x0, y = w.y() - y0;
			return std::min({ x - lb.x(), ub.x() - x, y - lb.y(), ub.y() - y, x - gx0, gx0 + rows * res - x, y - gy0, gy0 + cols * res - y });
		}
		void Refresh()
		{
			map->Update();
			occ.clear();
			for (int i = 0; i < rows; ++i)
				for (int j = 0; j < cols; ++j)
					if (map->IsOccupied({ i, j }))
						occ.push_back({ i, j });
			exact = ExactDistance(rows, cols, occ);
		}
		Pose2d RandomPose(vf::Rng& r) const
		{
			return Pose2d(x0 + r.U(lb.x(), ub.x()), y0 + r.U(lb.y(), ub.y()), r.U(-M_PI, M_PI));
		}
		bool FreePose(vf::Rng& r, Pose2d& p, int tries = 60) const
		{
			for (int k = 0; k < tries; ++k) {
				p = RandomPose(r);
				if (validator->IsStateValid(p))
					return true;
			}
			return false;
		}
	};

	struct WorldOptions {
		double halfMin = 4, halfMax = 12;
		int maxObstacles = 5;
		double obstacleSize = 0.35; // relative to the half size
	};

	inline World MakeWorld(vf::Ctx& c, const WorldOptions& o)
	{
		auto& r = c.rng;
		World w;
		w.res = (float)r.Pick({ 0.2, 0.25, 0.5, 0.5, 1.0 });
		double hx = r.U(o.halfMin, o.halfMax), hy = r.U(o.halfMin, o.halfMax);
		w.lb = Pose2d(-hx, -hy, -M_PI);
		w.ub = Pose2d(hx, hy, M_PI);
		w.space = makeRef<StateSpaceSE2>(w.lb, w.ub);
		w.map = makeRef<ObstacleListOccupancyMap>((float)w.res);
		if (r.P(0.4)) {
			w.x0 = r.U(-30, 30);
			w.y0 = r.U(-30, 30);
		}
		w.map->SetPosition({ w.x0, w.y0 });
		w.validator = makeRef<StateValidatorOccupancyMap>(w.space, w.map);
		w.rows = w.map->Rows();
		w.cols = w.map->Columns();
		auto corner = w.map->GridCellToLocalPosition(0, 0);
		w.gx0 = corner.x();
		w.gy0 = corner.y();
		w.validator->minSafeRadius = (float)r.Pick({ 0.3, 0.5, 0.8, 1.0 });
		MapSpec m { w.map, w.res, 2 * hx, 2 * hy, w.x0, w.y0, w.rows, w.cols };
		int n = r.I(0, o.maxObstacles);
		for (int i = 0; i < n; ++i) {
			auto ob = makeRef<Obstacle>();
			auto s = RandomShape(r, r.U(0.1, 1.0) * o.obstacleSize * std::max(hx, hy));
			ob->SetShape(s.shape);
			ob->SetPose(maps::RandomPose(r, m, 0.05));
			w.map->AddObstacle(ob);
			w.obstacles.push_back(ob);
		}
		w.Refresh();
		c.desc << w.rows << "x" << w.cols << " res " << w.res << " at " << w.x0 << "," << w.y0 << " obstacles " << n << " R " << w.validator->minSafeRadius;
		c.Sig(hx); c.Sig(w.x0); c.Sig((int)w.occ.size());
		return w;
	}
}
