// Random obstacle maps, and independent geometry on them.
#pragma once
#include "common.h"
#include "core/base.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "utils/grid.h"

namespace maps {
	using namespace Planner;
	using Cell = std::pair<int, int>;

	/// A shape together with the closed polylines it stands for (body frame).
	struct ShapeSpec {
		Ref<Shape> shape;
		std::vector<std::vector<Point2d>> loops;
		std::string text;
	};

	inline ShapeSpec Polygon(const std::vector<Point2d>& v, const char* name)
	{
		ShapeSpec s;
		s.shape = makeRef<PolygonShape>(v);
		s.loops = { v };
		std::ostringstream os;
		os << name << v.size();
		s.text = os.str();
		return s;
	}

	inline ShapeSpec RandomShape(vf::Rng& r, double size, int composite = 2)
	{
		ShapeSpec s;
		std::ostringstream os;
		os.precision(4);
		switch (r.I(0, composite > 0 ? 5 : 4)) {
		case 0: {
			double dx = r.U(0.05, 1) * size, dy = r.U(0.05, 1) * size;
			s.shape = makeRef<RectangleShape>(dx, dy);
			s.loops = { { { dx / 2, dy / 2 }, { -dx / 2, dy / 2 }, { -dx / 2, -dy / 2 }, { dx / 2, -dy / 2 } } };
			os << "rect " << dx << "x" << dy;
			break;
		}
		case 1: {
			int n = r.P(0.1) ? r.I(10, 120) : r.I(3, 9);
			double rad = r.U(0.05, 0.5) * size;
			s.shape = makeRef<RegularPolygonShape>(rad, n);
			s.loops.emplace_back();
			for (int i = 0; i < n; ++i)
				s.loops[0].push_back({ rad * std::cos(2 * M_PI * i / n), rad * std::sin(2 * M_PI * i / n) });
			os << "regular " << rad << "/" << n;
			break;
		}
		case 2: {
			int n = r.P(0.15) ? r.I(13, 200) : r.I(3, 12);
			double rad = r.U(0.05, 0.4) * size, big = rad / std::cos(M_PI / n);
			s.shape = makeRef<CircleShape>(rad, n);
			s.loops.emplace_back();
			for (int i = 0; i < n; ++i)
				s.loops[0].push_back({ big * std::cos(2 * M_PI * i / n), big * std::sin(2 * M_PI * i / n) });
			os << "circle " << rad << "/" << n;
			break;
		}
		case 3: { // a single point
			std::vector<Point2d> v { { 0.0, 0.0 } };
			return Polygon(v, "point");
		}
		case 4: {
			std::vector<Point2d> v;
			int n = r.P(0.1) ? r.I(7, 60) : r.I(2, 6);
			for (int i = 0; i < n; ++i)
				v.push_back({ r.U(-0.5, 0.5) * size, r.U(-0.5, 0.5) * size });
			return Polygon(v, "polygon");
		}
		default: {
			auto c = makeRef<CompositeShape>();
			int n = r.I(1, 3);
			os << "composite{";
			for (int i = 0; i < n; ++i) {
				auto k = RandomShape(r, size, composite - 1);
				c->Add(k.shape);
				for (auto& l : k.loops)
					s.loops.push_back(l);
				os << k.text << ";";
			}
			os << "}";
			s.shape = c;
		}
		}
		s.text = os.str();
		return s;
	}

	/// Exact squared distance (in cells) to the closest source; -1 if there is none. Separable:
	/// first along the rows, then the minimum over the other coordinate.
	inline std::vector<long> ExactDistance(int rows, int cols, const std::vector<Cell>& sources)
	{
		const long inf = -1;
		std::vector<long> col((size_t)rows * cols, inf), d((size_t)rows * cols, inf);
		for (auto& [a, b] : sources)
			col[(size_t)a * cols + b] = 0;
		for (int i = 0; i < rows; ++i) {
			long last = -1;
			for (int pass = 0; pass < 2; ++pass, last = -1)
				for (int k = 0; k < cols; ++k) {
					int j = pass ? cols - 1 - k : k;
					long& x = col[(size_t)i * cols + j];
					last = x == 0 ? 0 : last < 0 ? -1 : last + 1;
					if (last >= 0 && (x < 0 || last < x))
						x = last;
				}
		}
		for (int i = 0; i < rows; ++i)
			for (int k = 0; k < rows; ++k)
				for (int j = 0; j < cols; ++j) {
					long x = col[(size_t)k * cols + j];
					if (x < 0)
						continue;
					long v = x * x + (long)(i - k) * (i - k);
					long& y = d[(size_t)i * cols + j];
					if (y < 0 || v < y)
						y = v;
				}
		return d;
	}

	struct MapSpec {
		Ref<ObstacleListOccupancyMap> map;
		double res, width, height, x0, y0; // x0, y0: world position of the local frame
		int rows, cols;
	};

	/// Sizes and resolutions are such that float rounding cannot change the number of cells.
	inline MapSpec RandomMap(vf::Rng& r, int lo, int hi)
	{
		MapSpec m;
		m.res = r.Pick({ 0.1, 0.25, 0.5, 1.0, 1.0, 2.0, 0.3, 4.0 });
		m.rows = r.I(lo, hi);
		m.cols = r.I(lo, hi);
		float res = (float)m.res;
		m.res = res;
		m.width = (m.rows - r.Pick({ 0.02, 0.3, 0.5 })) * m.res;
		m.height = (m.cols - r.Pick({ 0.02, 0.3, 0.5 })) * m.res;
		m.width = (float)m.width;
		m.height = (float)m.height;
		m.x0 = r.P(0.3) ? 0 : r.U(-50, 50);
		m.y0 = r.P(0.3) ? 0 : r.U(-50, 50);
		m.map = makeRef<ObstacleListOccupancyMap>(res);
		bool before = r.P(0.5);
		if (before)
			m.map->SetPosition({ m.x0, m.y0 });
		m.map->InitializeSize((float)m.width, (float)m.height);
		if (!before)
			m.map->SetPosition({ m.x0, m.y0 });
		return m;
	}

	inline Pose2d RandomPose(vf::Rng& r, const MapSpec& m, double margin)
	{
		return Pose2d(m.x0 + r.U(-0.5 - margin, 0.5 + margin) * m.width, m.y0 + r.U(-0.5 - margin, 0.5 + margin) * m.height, r.U(-M_PI, M_PI));
	}
}
