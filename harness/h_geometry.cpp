// C18 state spaces and sampling; C19 poses, hashing; C20 kinematic bicycle model.
#include "common.h"
#include "rsref.h"
#include "geometry/2dplane.h"
#include "models/kinematic_bicycle_model.h"
#include "state_space/state_space_r2.h"
#include "state_space/state_space_se2.h"
#include "utils/maths.h"
using namespace vf;
using namespace Planner;

// Second translation unit's view of integer poses (h_geometry2 is this file's other half).
namespace {
	double Heading(Rng& r)
	{
		switch (r.I(0, 4)) {
		case 0: return r.I(-8, 8) * M_PI / 4;
		case 1: return (r.P(0.5) ? 1 : -1) * std::nextafter(M_PI, r.P(0.5) ? 10 : 0);
		case 2: return r.U(-60, 60);
		default: return r.U(-M_PI, M_PI);
		}
	}
	Pose2d RandomPose(Rng& r) { return Pose2d(r.U(-50, 50), r.U(-50, 50), Heading(r)); }
	bool Near(const Pose2d& a, const Pose2d& b, double tol = 1e-9) { return (a.position - b.position).norm() <= tol * 200 && rsref::AngDist(a.theta, b.theta) <= tol; }
	std::string S(const Pose2d& p) { std::ostringstream o; o.precision(17); o << "(" << p.x() << "," << p.y() << "," << p.theta << ")"; return o.str(); }
	const double PiTol = M_PI + 1e-12;

	// ---------------------------------------------------------------- C19
	Register algebra("pose-algebra", 3, [](Ctx& c) {
		Rng& r = c.rng;
		double raw = Heading(r);
		Pose2d made(r.U(-5, 5), r.U(-5, 5), raw);
		c.Check(std::fabs(made.theta) <= PiTol && rsref::AngDist(made.theta, raw) <= 1e-9, "heading-wrapped", VF_MSG("heading " << raw << " became " << made.theta));
		Pose2d a = RandomPose(r), b = RandomPose(r), d = RandomPose(r);
		c.desc << S(a) << " " << S(b) << " " << S(d);
		c.Sig(a.x()); c.Sig(b.y()); c.Sig(d.theta);
		c.Nontrivial();
		Pose2d unwrapped = a;
		unwrapped.theta += 2 * M_PI * r.I(-3, 3);
		c.Check(std::fabs(unwrapped.WrapTheta()) <= PiTol && rsref::AngDist(unwrapped.WrapTheta(), a.theta) <= 1e-9, "heading-wrapped", VF_MSG("wrapping " << unwrapped.theta));
		// independent composition
		auto comp = [](const Pose2d& p, const Pose2d& q) { double co = std::cos(p.theta), si = std::sin(p.theta); return Pose2d(p.x() + co * q.x() - si * q.y(), p.y() + si * q.x() + co * q.y(), p.theta + q.theta); };
		c.Check(Near(a + b, comp(a, b)), "composition", VF_MSG(S(a) << "+" << S(b) << "=" << S(a + b) << ", expected " << S(comp(a, b))));
		c.Check(Near(b + (a - b), a), "difference", VF_MSG("b+(a-b)=" << S(b + (a - b)) << " a=" << S(a)));
		c.Check(Near((a + b) + d, a + (b + d)), "associative", VF_MSG(S((a + b) + d) << " vs " << S(a + (b + d))));
		Pose2d id(0.0, 0.0, 0.0);
		c.Check(Near(a + id, a) && Near(id + a, a) && Near(a - a, id), "identity", VF_MSG("identity laws fail for " << S(a)));
		Pose2d inv = id - a;
		c.Check(Near(inv + a, id) && Near(a + inv, id), "inverse", VF_MSG("inverse laws fail for " << S(a)));
		c.Check(std::fabs((a + b).theta) <= PiTol && std::fabs((a - b).theta) <= PiTol, "heading-wrapped", VF_MSG("result heading out of range"));
		// distances are invariant under a change of frame
		double d1 = (a.position - b.position).norm(), d2 = ((d + a).position - (d + b).position).norm();
		c.Check(std::fabs(d1 - d2) <= 1e-8, "rigid", VF_MSG("distance " << d1 << " became " << d2));
		// an unwrapped operand is the same pose
		c.Check(Near(unwrapped + b, a + b, 1e-8) && Near(b - unwrapped, b - a, 1e-8), "heading-periodic", VF_MSG("adding a full turn to an operand changes the result"));
	});

	Register equality("pose-equality-hash", 2, [](Ctx& c) {
		Rng& r = c.rng;
		// equality is structural, and equal values hash alike
		Pose2i a((int)r.I(-4, 4), (int)r.I(-4, 4), (int)r.I(-80, 80)), b = r.P(0.4) ? a : Pose2i((int)r.I(-4, 4), (int)r.I(-4, 4), (int)r.I(-80, 80));
		c.desc << "(" << a.x() << "," << a.y() << "," << a.theta << ") (" << b.x() << "," << b.y() << "," << b.theta << ")";
		c.Sig(a.x()); c.Sig(a.y()); c.Sig(a.theta); c.Sig(b.x()); c.Sig(b.y()); c.Sig(b.theta);
		c.Nontrivial();
		int k = r.I(-1000, 1000);
		Pose2i bin(1, 2, k);
		c.Check(bin.theta == k && bin.x() == 1 && bin.y() == 2, "integer-heading", VF_MSG("discrete heading bin " << k << " became " << bin.theta));
		Pose2i bin2(Point2i(1, 2), k);
		c.Check(bin2.theta == k, "integer-heading", VF_MSG("discrete heading bin " << k << " became " << bin2.theta));
		bool eq = a.x() == b.x() && a.y() == b.y() && a.theta == b.theta;
		c.Check((a == b) == eq && (a != b) == !eq, "equality", VF_MSG("operator== says " << (a == b)));
		std::hash<Pose2i> h;
		std::equal_to<Pose2i> q;
		c.Check(q(a, b) == eq, "equal-to", VF_MSG("std::equal_to says " << q(a, b) << " for " << (eq ? "equal" : "different") << " discrete poses"));
		if (eq) c.Check(h(a) == h(b), "hash", VF_MSG("equal discrete poses hash differently"));
		// distinct discrete poses rarely collide
		std::unordered_set<size_t> hashes;
		int n = 0;
		int x0 = r.I(-50, 50), y0 = r.I(-50, 50), t0 = r.I(-36, 36);
		for (int x = 0; x < 6; ++x) for (int y = 0; y < 6; ++y) for (int t = 0; t < 6; ++t) { hashes.insert(h(Pose2i(x0 + x, y0 + y, t0 + t))); n++; }
		c.Check((int)hashes.size() > n / 2, "hash-spreads", VF_MSG(n << " neighbouring discrete poses have only " << hashes.size() << " hashes"));
		Pose2d p = RandomPose(r), s = r.P(0.4) ? p : RandomPose(r);
		bool eqd = p.x() == s.x() && p.y() == s.y() && p.theta == s.theta;
		c.Check((p == s) == eqd && (p != s) == !eqd, "equality", VF_MSG("operator== on " << S(p) << " " << S(s)));
		if (std::equal_to<Pose2d>()(p, s)) c.Check(std::hash<Pose2d>()(p) == std::hash<Pose2d>()(s), "hash", VF_MSG("equal poses hash differently"));
		// headings whole turns apart, set without the constructor, and the two zeros
		for (int i = 0; i < 8; ++i) {
			Pose2d u = p, v = p;
			double base = (double)r.I(-3, 3) * (r.P(0.5) ? 1.0 : 0.5);
			int turns = (int)r.I(-3, 3);
			v.theta = base + 2 * M_PI * turns;
			u.theta = r.P(0.5) ? v.WrapTheta() : base + 2 * M_PI * r.I(-3, 3);
			if (r.P(0.2)) u.x() = 0.0, v.x() = -0.0;
			if (r.P(0.2)) u.theta = 0.0, v.theta = -0.0;
			if (std::equal_to<Pose2d>()(u, v)) {
				c.Count(u.theta != v.theta ? "equal-after-wrapping" : "equal");
				c.Check(std::hash<Pose2d>()(u) == std::hash<Pose2d>()(v), "hash", VF_MSG("poses that compare equal hash differently: " << S(u) << " " << S(v)));
				std::unordered_set<Pose2d> set { u };
				c.Check(set.count(v) == 1 && !set.insert(v).second, "hash-container", VF_MSG("a set with " << S(u) << " does not find the equal " << S(v)));
			}
			Pose2d w = v;
			w.theta = v.WrapTheta();
			c.Check(std::fabs(w.theta) <= M_PI && std::equal_to<Pose2d>()(v, w), "equal-wrapped", VF_MSG(S(v) << " differs from its wrapped form " << S(w)));
		}
		// the discrete poses live in the library's hash containers
		std::unordered_map<Pose2i, int> m;
		std::map<std::tuple<int, int, int>, int> ref;
		for (int i = 0; i < 60; ++i) {
			Pose2i z((int)r.I(0, 3), (int)r.I(0, 3), (int)r.I(-20, 20));
			m[z] = i;
			ref[{ z.x(), z.y(), z.theta }] = i;
		}
		bool same = m.size() == ref.size();
		for (auto& [key, v] : ref) { auto it = m.find(Pose2i(std::get<0>(key), std::get<1>(key), std::get<2>(key))); same &= it != m.end() && it->second == v; }
		c.Check(same, "hash-container", VF_MSG("hash map holds " << m.size() << " entries, " << ref.size() << " distinct keys were inserted"));
		Point2i pa(r.I(-3, 3), r.I(-3, 3)), pb(r.I(-3, 3), r.I(-3, 3));
		bool eqp = pa.x() == pb.x() && pa.y() == pb.y();
		c.Check(std::equal_to<Point2i>()(pa, pb) == eqp && (!eqp || std::hash<Point2i>()(pa) == std::hash<Point2i>()(pb)), "point-equality", VF_MSG("point equality or hash"));
	});

	Register modulo("modulo", 1, [](Ctx& c) {
		Rng& r = c.rng;
		double x = r.P(0.3) ? r.I(-10, 10) * M_PI : r.U(-100, 100), m = r.Pick({ 2 * M_PI, M_PI, 1.0, 3.7 });
		double v = Maths::Modulo(x, m);
		c.desc << x << " mod " << m;
		c.Sig(x); c.Sig(m);
		c.Nontrivial();
		double k = (x - v) / m;
		c.Check(v >= 0 && v <= m && std::fabs(k - std::round(k)) < 1e-9, "modulo", VF_MSG("Modulo(" << x << "," << m << ")=" << v));
		int xi = r.I(-100, 100), mi = r.I(1, 12), vi = Maths::Modulo(xi, mi);
		c.Check(vi >= 0 && vi < mi && (xi - vi) % mi == 0, "modulo", VF_MSG("Modulo(" << xi << "," << mi << ")=" << vi));
	});

	// ---------------------------------------------------------------- C18
	void Stat(Ctx& c, std::vector<double> v, double lb, double ub, const char* axis)
	{
		// Uniform on [lb, ub]: mean and variance within 7 sigma, all within bounds, both ends visited.
		double n = (double)v.size(), w = ub - lb, sum = 0, sq = 0, mn = v[0], mx = v[0];
		for (double x : v) { sum += x; mn = std::min(mn, x); mx = std::max(mx, x); }
		double mean = sum / n;
		for (double x : v) sq += (x - (lb + ub) / 2) * (x - (lb + ub) / 2);
		double tol = 1e-9 * (1 + std::fabs(lb) + std::fabs(ub));
		c.Check(mn >= lb && mx <= ub + 4 * std::numeric_limits<double>::epsilon() * (std::fabs(lb) + std::fabs(ub)), "sample-in-bounds", VF_MSG(axis << " sample outside [" << lb << "," << ub << "]: " << mn << ".." << mx));
		c.Check(std::fabs(mean - (lb + ub) / 2) <= 7 * w / std::sqrt(12 * n) + tol, "uniform-mean", VF_MSG(axis << " mean " << mean << " of " << n << " samples on [" << lb << "," << ub << "]"));
		double var = sq / n, evar = w * w / 12; // fourth moment of a uniform: w^4/80
		c.Check(std::fabs(var - evar) <= 7 * std::sqrt((1.0 / 80 - 1.0 / 144) / n) * w * w + tol, "uniform-variance", VF_MSG(axis << " variance " << var << " expected " << evar));
		// ten equal bins, each within 7 sigma of n/10
		std::array<int, 10> bins {};
		if (w > 0) {
			for (double x : v) bins[(size_t)std::clamp((int)((x - lb) / w * 10), 0, 9)]++;
			for (int b : bins) c.Check(std::fabs(b - n / 10) <= 7 * std::sqrt(n * 0.09) + 1, "uniform-bins", VF_MSG(axis << " bin holds " << b << " of " << n));
		}
	}
	void Correl(Ctx& c, const std::vector<double>& a, const std::vector<double>& b, double wa, double wb, double ca, double cb, const char* what)
	{
		if (wa <= 0 || wb <= 0) return;
		double n = (double)a.size(), s = 0;
		for (size_t i = 0; i < a.size(); ++i) s += (a[i] - ca) * (b[i] - cb);
		c.Check(std::fabs(s / n) <= 7 * (wa * wb / 12) / std::sqrt(n), "independent", VF_MSG(what << " are correlated: " << s / n / (wa * wb / 12)));
	}
	std::pair<double, double> Interval(Rng& r)
	{
		double lo = r.P(0.2) ? 0.0 : r.U(-30, 30), w = r.P(0.1) ? 0.0 : r.U(0.1, 40);
		return { lo, lo + w };
	}

	Register r2("space-r2", 2, [](Ctx& c) {
		Rng& r = c.rng;
		auto [lx, ux] = Interval(r);
		auto [ly, uy] = Interval(r);
		StateSpaceR2 space = r.P(0.5) ? StateSpaceR2(Point2d(lx, ly), Point2d(ux, uy)) : StateSpaceR2(std::array<Point2d, 2> { Point2d(lx, ly), Point2d(ux, uy) });
		c.desc << "R2 [" << lx << "," << ux << "]x[" << ly << "," << uy << "]";
		c.Sig(lx); c.Sig(ux); c.Sig(ly);
		c.Nontrivial();
		c.Check(space.bounds[0].x() == lx && space.bounds[0].y() == ly && space.bounds[1].x() == ux && space.bounds[1].y() == uy, "bounds-kept", VF_MSG("bounds differ from those given"));
		for (int i = 0; i < 20; ++i) {
			Point2d p(r.P(0.2) ? r.Pick({ lx, ux }) : r.U(lx - 10, ux + 10), r.P(0.2) ? r.Pick({ ly, uy }) : r.U(ly - 10, uy + 10));
			bool inside = p.x() >= lx && p.x() <= ux && p.y() >= ly && p.y() <= uy;
			c.Check(space.ValidateBounds(p) == inside, "validate", VF_MSG("(" << p.x() << "," << p.y() << ") reported " << (inside ? "outside" : "inside")));
			Point2d q = p;
			space.EnforceBounds(q);
			Point2d want(std::min(std::max(p.x(), lx), ux), std::min(std::max(p.y(), ly), uy));
			c.Check(q == want, "enforce-nearest", VF_MSG("(" << p.x() << "," << p.y() << ") enforced to (" << q.x() << "," << q.y() << ")"));
			c.Check(space.ValidateBounds(q), "enforce-valid", VF_MSG("enforced state is outside the bounds"));
			Point2d g = space.SampleGaussian(p, Point2d(r.U(0, 5), r.U(0, 5)));
			c.Check(space.ValidateBounds(g), "gaussian-in-bounds", VF_MSG("Gaussian sample (" << g.x() << "," << g.y() << ") outside the bounds"));
		}
		if (r.P(0.15)) {
			int n = 4000;
			std::vector<double> xs, ys, g1, g2;
			auto& base = static_cast<StateSpace<Point2d, 2, double>&>(space);
			auto many = base.SampleUniform((unsigned)n);
			c.Check((int)many.size() == n, "sample-count", VF_MSG("asked " << n << " samples, got " << many.size()));
			for (auto& p : many) { xs.push_back(p.x()); ys.push_back(p.y()); }
			Stat(c, xs, lx, ux, "x");
			Stat(c, ys, ly, uy, "y");
			Correl(c, xs, ys, ux - lx, uy - ly, (lx + ux) / 2, (ly + uy) / 2, "x and y");
			std::vector<double> prev(xs.begin(), xs.end() - 1), next(xs.begin() + 1, xs.end());
			Correl(c, prev, next, ux - lx, ux - lx, (lx + ux) / 2, (lx + ux) / 2, "successive samples");
			// Gaussian well inside wide bounds
			StateSpaceR2 wide(Point2d(-1e4, -1e4), Point2d(1e4, 1e4));
			auto& wbase = static_cast<StateSpace<Point2d, 2, double>&>(wide);
			Point2d mean(r.U(-100, 100), r.U(-100, 100)), sd(r.U(0.1, 10), r.U(0.1, 10));
			auto gs = wbase.SampleGaussian(mean, sd, (unsigned)n);
			c.Check((int)gs.size() == n, "sample-count", VF_MSG("asked " << n << " Gaussian samples, got " << gs.size()));
			for (int axis = 0; axis < 2 && (int)gs.size() == n; ++axis) {
				double s = 0, q = 0;
				int beyond = 0;
				for (auto& g : gs) { s += g[axis]; q += (g[axis] - mean[axis]) * (g[axis] - mean[axis]); beyond += std::fabs(g[axis] - mean[axis]) > sd[axis]; }
				c.Check(std::fabs(s / n - mean[axis]) <= 7 * sd[axis] / std::sqrt(n), "gaussian-mean", VF_MSG("axis " << axis << " mean " << s / n << " expected " << mean[axis]));
				c.Check(std::fabs(q / n - sd[axis] * sd[axis]) <= 7 * sd[axis] * sd[axis] * std::sqrt(2.0 / n), "gaussian-deviation", VF_MSG("axis " << axis << " variance " << q / n << " expected " << sd[axis] * sd[axis]));
				c.Check(std::fabs(beyond - 0.3173 * n) <= 7 * std::sqrt(n * 0.3173 * 0.6827), "gaussian-shape", VF_MSG("axis " << axis << ": " << beyond << " of " << n << " samples beyond one deviation"));
			}
			c.Count("statistical-tests");
		}
	});

	Register sse2("space-se2", 2, [](Ctx& c) {
		Rng& r = c.rng;
		auto [lx, ux] = Interval(r);
		auto [ly, uy] = Interval(r);
		double lt = -M_PI, ut = M_PI;
		if (r.P(0.4)) { lt = r.U(-M_PI, M_PI); ut = r.U(-M_PI, M_PI); if (lt > ut) std::swap(lt, ut); }
		Pose2d lb(lx, ly, lt), ub(ux, uy, ut);
		StateSpaceSE2 space = r.P(0.5) ? StateSpaceSE2(lb, ub) : StateSpaceSE2(std::array<Pose2d, 2> { lb, ub });
		c.desc << "SE2 " << S(lb) << ".." << S(ub);
		c.Sig(lx); c.Sig(ux); c.Sig(ly); c.Sig(lt);
		c.Nontrivial();
		for (int i = 0; i < 20; ++i) {
			Pose2d p(r.P(0.2) ? r.Pick({ lx, ux }) : r.U(lx - 10, ux + 10), r.P(0.2) ? r.Pick({ ly, uy }) : r.U(ly - 10, uy + 10), r.P(0.2) ? r.Pick({ lt, ut }) : r.U(-M_PI, M_PI));
			bool inside = p.x() >= lx && p.x() <= ux && p.y() >= ly && p.y() <= uy && p.theta >= lt && p.theta <= ut;
			c.Check(space.ValidateBounds(p) == inside, "validate", VF_MSG(S(p) << " reported " << (inside ? "outside" : "inside")));
			Pose2d q = p;
			space.EnforceBounds(q);
			Pose2d want(std::min(std::max(p.x(), lx), ux), std::min(std::max(p.y(), ly), uy), std::min(std::max(p.theta, lt), ut));
			c.Check(q == want, "enforce-nearest", VF_MSG(S(p) << " enforced to " << S(q)));
			c.Check(space.ValidateBounds(q), "enforce-valid", VF_MSG("enforced state " << S(q) << " is outside the bounds"));
			Pose2d g = space.SampleGaussian(p, Pose2d(r.U(0, 5), r.U(0, 5), r.U(0, 3)));
			c.Check(space.ValidateBounds(g), "gaussian-in-bounds", VF_MSG("Gaussian sample " << S(g) << " outside the bounds"));
		}
		if (r.P(0.15)) {
			int n = 4000;
			std::vector<double> xs, ys, ts;
			auto& base = static_cast<StateSpace<Pose2d, 3, double>&>(space);
			auto many = base.SampleUniform((unsigned)n);
			c.Check((int)many.size() == n, "sample-count", VF_MSG("asked " << n << " samples, got " << many.size()));
			for (auto& p : many) { xs.push_back(p.x()); ys.push_back(p.y()); ts.push_back(p.theta); }
			Stat(c, xs, lx, ux, "x");
			Stat(c, ys, ly, uy, "y");
			Stat(c, ts, lt, ut, "heading");
			Correl(c, xs, ys, ux - lx, uy - ly, (lx + ux) / 2, (ly + uy) / 2, "x and y");
			Correl(c, xs, ts, ux - lx, ut - lt, (lx + ux) / 2, (lt + ut) / 2, "x and heading");
			Correl(c, ys, ts, uy - ly, ut - lt, (ly + uy) / 2, (lt + ut) / 2, "y and heading");
			StateSpaceSE2 wide(Pose2d(-1e4, -1e4, -M_PI), Pose2d(1e4, 1e4, M_PI));
			auto& wbase = static_cast<StateSpace<Pose2d, 3, double>&>(wide);
			double mean[3] = { r.U(-100, 100), r.U(-100, 100), r.U(-0.3, 0.3) }, sd[3] = { r.U(0.1, 10), r.U(0.1, 10), r.U(0.02, 0.3) };
			auto gs = wbase.SampleGaussian(Pose2d(mean[0], mean[1], mean[2]), Pose2d(sd[0], sd[1], sd[2]), (unsigned)n);
			c.Check((int)gs.size() == n, "sample-count", VF_MSG("asked " << n << " Gaussian samples, got " << gs.size()));
			for (int axis = 0; axis < 3 && (int)gs.size() == n; ++axis) {
				double s = 0, q = 0;
				int beyond = 0;
				for (auto& g : gs) { double v = axis == 0 ? g.x() : axis == 1 ? g.y() : g.theta; s += v; q += (v - mean[axis]) * (v - mean[axis]); beyond += std::fabs(v - mean[axis]) > sd[axis]; }
				c.Check(std::fabs(s / n - mean[axis]) <= 7 * sd[axis] / std::sqrt(n), "gaussian-mean", VF_MSG("axis " << axis << " mean " << s / n << " expected " << mean[axis]));
				c.Check(std::fabs(q / n - sd[axis] * sd[axis]) <= 7 * sd[axis] * sd[axis] * std::sqrt(2.0 / n), "gaussian-deviation", VF_MSG("axis " << axis << " variance " << q / n << " expected " << sd[axis] * sd[axis]));
				c.Check(std::fabs(beyond - 0.3173 * n) <= 7 * std::sqrt(n * 0.3173 * 0.6827), "gaussian-shape", VF_MSG("axis " << axis << ": " << beyond << " of " << n << " samples beyond one deviation"));
			}
			c.Count("statistical-tests");
		}
	});

	// ---------------------------------------------------------------- C20
	Register bicycle("bicycle", 3, [](Ctx& c) {
		Rng& r = c.rng;
		double wb = r.U(0.5, 5), rear = r.P(0.4) ? 0.0 : r.U(0, wb);
		KinematicBicycleModel model(wb, rear);
		Pose2d from = RandomPose(r);
		double steer = r.P(0.15) ? 0.0 : r.P(0.2) ? r.U(-1, 1) * std::pow(10, -r.I(3, 14)) : r.U(-1.3, 1.3);
		double dist = r.P(0.05) ? 0.0 : r.U(0, 30);
		bool fwd = r.P(0.5);
		Direction dir = fwd ? Direction::Forward : Direction::Backward, opp = fwd ? Direction::Backward : Direction::Forward;
		c.desc << "from " << S(from) << " wheelbase " << wb << " rear " << rear << " steer " << steer << " dist " << dist << (fwd ? " forward" : " backward");
		c.Sig(from.x()); c.Sig(steer); c.Sig(dist);
		if (dist > 0) c.Nontrivial();
		const double tol = 1e-5; // the straight-line shortcut below 1e-9 rad/m
		auto near = [&](const Pose2d& a, const Pose2d& b) { return (a.position - b.position).norm() <= tol && rsref::AngDist(a.theta, b.theta) <= 1e-6; };
		Pose2d to = model.ConstantSteer(from, steer, dist, dir);
		// exact: the rear axle follows a circle of curvature tan(steer)/wheelbase
		double kappa = std::tan(steer) / wb, d = fwd ? dist : -dist;
		double h = kappa * d / 2, chord = std::fabs(h) < 1e-8 ? d : d * std::sin(h) / h;
		double rx = from.x() - rear * std::cos(from.theta) + chord * std::cos(from.theta + h), ry = from.y() - rear * std::sin(from.theta) + chord * std::sin(from.theta + h), th = from.theta + 2 * h;
		Pose2d want(rx + rear * std::cos(th), ry + rear * std::sin(th), th);
		c.Check(near(to, want), "exact-arc", VF_MSG("arrives at " << S(to) << ", expected " << S(want)));
		c.Check(near(model.ConstantSteer(from, steer, 0.0, dir), from), "zero-distance", VF_MSG("moves without travelling"));
		c.Check(near(model.ConstantSteer(to, steer, dist, opp), from), "reversible", VF_MSG("driving back ends at " << S(model.ConstantSteer(to, steer, dist, opp))));
		double s1 = dist * r.U();
		c.Check(near(model.ConstantSteer(model.ConstantSteer(from, steer, s1, dir), steer, dist - s1, dir), to), "composable", VF_MSG("splitting the motion at " << s1 << " changes the end"));
		Pose2d frame = RandomPose(r);
		c.Check(near(model.ConstantSteer(frame + from, steer, dist, dir), frame + to), "frame-invariant", VF_MSG("the motion depends on the frame"));
		Pose2d origin(0.0, 0.0, 0.0);
		Pose2d l = model.ConstantSteer(origin, steer, dist, dir), rr = model.ConstantSteer(origin, -steer, dist, dir);
		c.Check(near(Pose2d(l.x(), -l.y(), -l.theta), rr), "mirror", VF_MSG("left and right turns are not mirror images"));
		// turning radius of the reference point <-> steering angle
		double R = rear + r.U(0.05, 20);
		double delta = model.GetSteeringAngleFromTurningRadius(R);
		c.Check(delta > 0 && delta < M_PI / 2 + 1e-9, "steering-range", VF_MSG("steering angle " << delta));
		double rearR = wb / std::tan(delta);
		c.Check(std::fabs(std::hypot(rearR, rear) - R) <= 1e-7 * (1 + R), "steering-radius", VF_MSG("steering " << delta << " turns with radius " << std::hypot(rearR, rear) << ", asked " << R));
		// the reference point really moves on a circle of that radius: after half a turn it is 2R away
		Pose2d half = model.ConstantSteer(from, delta, M_PI * rearR, dir);
		c.Check(std::fabs((half.position - from.position).norm() - 2 * R) <= 1e-5 * (1 + R), "half-turn", VF_MSG("half a turn of radius " << R << " ends " << (half.position - from.position).norm() << " away"));
	});
}
