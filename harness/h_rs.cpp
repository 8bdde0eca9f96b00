// C08: Reeds-Shepp curves.
#include "common.h"
#include "rsref.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
using namespace vf;
using namespace Planner;
using namespace Planner::ReedsShepp;

namespace {
	double Angle(Rng& r)
	{
		switch (r.I(0, 3)) {
		case 0: return r.I(-4, 4) * M_PI / 4;
		case 1: return r.I(-4, 4) * M_PI / 4 + r.U(-1, 1) * std::pow(10, -r.I(3, 15));
		default: return r.U(-M_PI, M_PI);
		}
	}
	double Coord(Rng& r, double R)
	{
		switch (r.I(0, 4)) {
		case 0: return r.I(-6, 6) * R;
		case 1: return r.U(-4, 4) * R;
		case 2: return r.U(-40, 40) * R;
		case 3: return r.U(-1, 1) * std::pow(10, -r.I(1, 8)) * R;
		default: return r.I(-6, 6) * R / 2 + r.U(-1, 1) * std::pow(10, -r.I(6, 15));
		}
	}
	struct Query { Pose2d start, goal; double R; };
	Query MakeQuery(Ctx& c)
	{
		Rng& r = c.rng;
		Query q;
		q.R = r.Pick({ 1.0, 1.0, 0.5, 2.3, 6.0 });
		q.start = Pose2d(r.P(0.4) ? 0.0 : r.U(-20, 20), r.P(0.4) ? 0.0 : r.U(-20, 20), r.P(0.3) ? 0.0 : Angle(r));
		int kind = r.I(0, 5);
		if (kind <= 2) {
			Pose2d rel(Coord(r, q.R), Coord(r, q.R), Angle(r));
			q.goal = q.start + rel;
		} else if (kind == 3) { // unrelated goal
			q.goal = Pose2d(Coord(r, q.R), Coord(r, q.R), Angle(r));
		} else { // reachable by a random sequence of motions: exercises every word family
			rsref::P p { q.start.x(), q.start.y(), q.start.theta };
			int n = r.I(1, 5);
			bool exact = r.P(0.5); // quarter and half turns: the boundaries between word families
			for (int i = 0; i < n; ++i) {
				int k = r.I(-1, 1);
				double amount = exact && r.P(0.6) ? (r.P(0.5) ? 1 : -1) * r.Pick({ 1.0, 0.5 }) : r.U(-1, 1);
				p = rsref::Step(p, k, amount * (k ? r.Pick({ exact ? M_PI / 2 : 0.3, M_PI / 2, M_PI }) : r.Pick({ 0.5, 3.0, 10.0 })), q.R);
			}
			q.goal = Pose2d(p.x, p.y, rsref::Wrap(p.th));
		}
		c.desc << "start=(" << q.start.x() << "," << q.start.y() << "," << q.start.theta << ") goal=(" << q.goal.x() << "," << q.goal.y() << "," << q.goal.theta << ") R=" << q.R;
		c.Sig(q.start.x()); c.Sig(q.start.y()); c.Sig(q.start.theta);
		c.Sig(q.goal.x()); c.Sig(q.goal.y()); c.Sig(q.goal.theta); c.Sig(q.R);
		if ((q.goal.position - q.start.position).norm() > 1e-9) c.Nontrivial();
		return q;
	}
	std::vector<rsref::Seg> Segs(const PathSegment& p)
	{
		std::vector<rsref::Seg> s;
		for (int i = 0; i < p.GetNumMotions(); ++i) {
			auto& m = p.GetMotion(i);
			s.push_back({ m.steer == Steer::Left ? 1 : m.steer == Steer::Right ? -1 : 0, m.direction == Direction::Backward ? -m.length : m.length });
		}
		return s;
	}
	std::string Str(const std::vector<rsref::Seg>& s)
	{
		std::ostringstream o;
		o.precision(12);
		for (auto& k : s) o << (k.kind > 0 ? 'L' : k.kind < 0 ? 'R' : 'S') << k.len << ' ';
		return o.str();
	}
	void CheckReaches(Ctx& c, const Query& q, const PathSegment& p, const char* what)
	{
		auto segs = Segs(p);
		for (auto& s : segs)
			c.Check(std::isfinite(s.len), "finite", VF_MSG(what << ": non finite motion " << Str(segs)));
		for (int i = 0; i < p.GetNumMotions(); ++i)
			c.Check(p.GetMotion(i).length >= -1e-9, "negative-length", VF_MSG(what << ": motion " << i << " has length " << p.GetMotion(i).length));
		auto e = rsref::Run({ q.start.x(), q.start.y(), q.start.theta }, segs, q.R);
		double scale = 1 + (q.goal.position - q.start.position).norm() + q.R;
		c.Check(std::hypot(e.x - q.goal.x(), e.y - q.goal.y()) <= 1e-6 * scale && rsref::AngDist(e.th, q.goal.theta) <= 1e-6, "reaches-goal",
			VF_MSG(what << ": motions " << Str(segs) << " end at (" << e.x << "," << e.y << "," << e.th << ")"));
		c.Check(std::fabs(p.GetLength(q.R) - rsref::Length(segs) * q.R) <= 1e-9 * scale, "length-is-sum", VF_MSG(what << ": length " << p.GetLength(q.R) << " motions sum to " << rsref::Length(segs) * q.R));
		// the same thing through the path object
		PathReedsShepp path(q.start, p, q.R);
		const Pose2d f = path.GetFinalState();
		c.Check((f.position - q.goal.position).norm() <= 1e-6 * scale && rsref::AngDist(f.theta, q.goal.theta) <= 1e-6, "path-final-state",
			VF_MSG(what << ": path ends at (" << f.x() << "," << f.y() << "," << f.theta << ")"));
		c.Count("word:" + [&] { std::string w; for (auto& s : segs) { if (std::fabs(s.len) < 1e-9) continue; w += s.kind > 0 ? 'L' : s.kind < 0 ? 'R' : 'S'; w += s.len > 0 ? '+' : '-'; } return w; }());
	}
	rsref::P Rel(const Query& q)
	{
		double dx = q.goal.x() - q.start.x(), dy = q.goal.y() - q.start.y(), a = q.start.theta;
		return { (dx * std::cos(a) + dy * std::sin(a)) / q.R, (-dx * std::sin(a) + dy * std::cos(a)) / q.R, rsref::Wrap(q.goal.theta - a) };
	}

	Register shortest("rs-shortest", 4, [](Ctx& c) {
		Query q = MakeQuery(c);
		PathWords word = PathWords::NoPath, word2 = PathWords::NoPath;
		double dist = Solver::GetShortestDistance(q.start, q.goal, q.R, &word);
		PathSegment p = Solver::GetShortestPath(q.start, q.goal, q.R, &word2);
		if (!c.Check(IsPathWordValid(word) && IsPathWordValid(word2), "path-exists", VF_MSG("no path found"))) return;
		CheckReaches(c, q, p, "shortest path");
		double len = p.GetLength(q.R);
		double scale = 1 + len;
		// The distance is not Lipschitz in the poses (a sideways offset e costs about e^(1/3)),
		// so rounding moves it by up to a few 1e-4 turning radii when the poses nearly coincide.
		const double tol = 2e-3 * q.R + 2e-4 * len;
		c.Check(std::fabs(len - dist) <= 1e-7 * scale, "distance-is-length", VF_MSG("distance " << dist << ", the path is " << len << " long"));
		auto rel = Rel(q);
		double best = INFINITY;
		std::vector<rsref::Seg> bestSegs;
		for (auto& w : rsref::Words(rel.x, rel.y, rel.th))
			if (rsref::Length(w) < best) { best = rsref::Length(w); bestSegs = w; }
		if (std::isfinite(best)) {
			c.Count("reference-found");
			c.Check(len <= best * q.R + tol, "shortest", VF_MSG("length " << len << " (" << Str(Segs(p)) << "), but " << Str(bestSegs) << " reaches the goal with length " << best * q.R));
			if (len < best * q.R - tol) c.Count("reference-not-tight");
		} else
			c.Count("reference-missing");
		c.Check(dist >= (q.goal.position - q.start.position).norm() - 1e-7 * scale, "at-least-euclidean", VF_MSG("distance " << dist << " below the straight line"));
		// Distance is symmetric, and invariant under mirror images and rigid motions
		Query s[4];
		s[0] = { q.goal, q.start, q.R };
		s[1] = { Pose2d(q.start.x(), -q.start.y(), -q.start.theta), Pose2d(q.goal.x(), -q.goal.y(), -q.goal.theta), q.R };
		Pose2d frame(c.rng.U(-10, 10), c.rng.U(-10, 10), c.rng.U(-3, 3));
		s[2] = { frame + q.start, frame + q.goal, q.R };
		s[3] = { Pose2d(-q.start.x(), q.start.y(), -q.start.theta), Pose2d(-q.goal.x(), q.goal.y(), -q.goal.theta), q.R };
		static const char* names[] = { "reversed", "mirrored", "moved", "time-flipped" };
		for (int i = 0; i < 4; ++i) {
			double d = Solver::GetShortestDistance(s[i].start, s[i].goal, s[i].R);
			c.Check(std::fabs(d - dist) <= tol, "symmetry", VF_MSG(names[i] << " problem has distance " << d << ", the original " << dist));
		}
		// Homogeneous in the turning radius
		double k = c.rng.U(0.3, 4);
		Query h { Pose2d(k * q.start.x(), k * q.start.y(), q.start.theta), Pose2d(k * q.goal.x(), k * q.goal.y(), q.goal.theta), k * q.R };
		double d = Solver::GetShortestDistance(h.start, h.goal, h.R);
		c.Check(std::fabs(d - k * dist) <= tol * std::max(1.0, k), "homogeneous", VF_MSG("scaled by " << k << ": distance " << d << ", expected " << k * dist));
	});

	Register optimal("rs-optimal", 4, [](Ctx& c) {
		Query q = MakeQuery(c);
		Rng& r = c.rng;
		float rev = r.Pick({ 1.0, 1.0, 1.5, 4.0, 0.25 }), fwd = r.Pick({ 1.0, 1.0, 2.0, 0.5 }), sw = r.Pick({ 0.0, 0.0, 1.0, 10.0 });
		c.desc << " reverse=" << rev << " forward=" << fwd << " switch=" << sw;
		c.Sig((double)rev); c.Sig((double)fwd); c.Sig((double)sw);
		PathWords word = PathWords::NoPath;
		PathSegment p = Solver::GetOptimalPath(q.start, q.goal, q.R, rev, fwd, sw, &word);
		if (!c.Check(IsPathWordValid(word), "path-exists", VF_MSG("no path found"))) return;
		CheckReaches(c, q, p, "optimal path");
		double cost = p.ComputeCost(q.R, rev, fwd, sw);
		auto segs = Segs(p);
		double scale = 1 + cost;
		double hi = rsref::Cost(segs, q.R, rev, fwd, sw);
		std::vector<rsref::Seg> trimmed;
		bool tiny = false;
		for (auto& s : segs) { if (std::fabs(s.len) > 1e-7) trimmed.push_back(s); else tiny = true; }
		double lo = rsref::Cost(trimmed, q.R, rev, fwd, sw);
		c.Check(cost >= lo - 1e-4 * scale && (tiny || cost <= hi + 1e-4 * scale), "cost-model", VF_MSG("cost " << cost << ", the cost model gives " << lo << " for " << Str(segs)));
		auto rel = Rel(q);
		double best = INFINITY;
		std::vector<rsref::Seg> bestSegs;
		for (auto& w : rsref::Words(rel.x, rel.y, rel.th)) {
			bool degenerate = false;
			for (auto& s : w) degenerate |= std::fabs(s.len) < 1e-6 || std::fabs(std::fabs(s.len) - M_PI) < 1e-6;
			if (degenerate) continue; // on the boundary between two words
			double k = rsref::Cost(w, q.R, rev, fwd, sw);
			if (k < best) { best = k; bestSegs = w; }
		}
		if (std::isfinite(best))
			c.Check(cost <= best + 2e-3 * (scale + q.R), "cheapest-word", VF_MSG("cost " << cost << " (" << Str(segs) << "), but " << Str(bestSegs) << " costs " << best));
		// The connection used by planners gives the same path
		PathConnectionReedsShepp conn(q.R, sw, rev, fwd);
		auto path = std::dynamic_pointer_cast<PathReedsShepp>(conn.Connect(q.start, q.goal));
		c.Check(std::fabs(path->ComputeCost(sw, rev, fwd) - cost) <= 1e-4 * scale, "connection-cost", VF_MSG("connection cost " << path->ComputeCost(sw, rev, fwd) << " solver " << cost));
		c.Check((path->GetInitialState().position - q.start.position).norm() <= 1e-9, "connection-start", VF_MSG("connection does not start at the start"));
	});

	Register segment("rs-segment", 1, [](Ctx& c) {
		// hand-made segments: transforms, counts and costs
		Rng& r = c.rng;
		PathSegment p;
		std::vector<rsref::Seg> segs;
		int n = r.I(0, 5);
		for (int i = 0; i < n; ++i) {
			int k = r.I(-1, 1);
			double len = r.U(0.01, 4) * (r.P(0.5) ? 1 : -1);
			p.AddMotion(k > 0 ? Steer::Left : k < 0 ? Steer::Right : Steer::Straight, len > 0 ? Direction::Forward : Direction::Backward, std::fabs(len));
			segs.push_back({ k, len });
			c.Sig(k); c.Sig(len);
		}
		c.desc << Str(segs);
		if (n) c.Nontrivial();
		double R = r.U(0.3, 3);
		float rev = r.Pick({ 1.0, 2.0, 0.5 }), fwd = r.Pick({ 1.0, 3.0 }), sw = r.Pick({ 0.0, 1.0, 7.0 });
		c.Check(p.GetNumMotions() == n, "num-motions", VF_MSG("counts " << p.GetNumMotions() << " of " << n));
		c.Check(std::fabs(p.GetLength(R) - R * rsref::Length(segs)) < 1e-9, "length-is-sum", VF_MSG("length " << p.GetLength(R)));
		double cost = p.ComputeCost(R, rev, fwd, sw);
		if (n) c.Check(std::fabs(cost - rsref::Cost(segs, R, rev, fwd, sw)) <= 1e-4 * (1 + cost), "cost-model", VF_MSG("cost " << cost << " expected " << rsref::Cost(segs, R, rev, fwd, sw) << " reverse " << rev << " forward " << fwd << " switch " << sw));
		bool tf = r.P(0.5), rf = r.P(0.5);
		if (tf) { p.TimeflipTransform(); for (auto& s : segs) s.len = -s.len; }
		if (rf) { p.ReflectTransform(); for (auto& s : segs) s.kind = -s.kind; }
		auto got = Segs(p);
		bool same = got.size() == segs.size();
		for (size_t i = 0; same && i < segs.size(); ++i) same = got[i].kind == segs[i].kind && got[i].len == segs[i].len;
		c.Check(same, "transform", VF_MSG("transform gives " << Str(got) << " expected " << Str(segs)));
	});
}
