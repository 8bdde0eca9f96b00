// C09: path objects (interpolation, truncation, direction, cusps, composition).
#include "common.h"
#include "rsref.h"
#include "paths/path_r2.h"
#include "paths/path_se2.h"
#include "paths/path_constant_steer.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_composite.h"
#include "models/kinematic_bicycle_model.h"
using namespace vf;
using namespace Planner;

namespace {
	struct V3 { double x, y, th; };
	V3 To(const Pose2d& p) { return { p.x(), p.y(), p.theta }; }
	V3 To(const Point2d& p) { return { p.x(), p.y(), 0 }; }
	double Dist(const V3& a, const V3& b) { return std::hypot(a.x - b.x, a.y - b.y); }
	bool Same(const V3& a, const V3& b, double tol) { return Dist(a, b) <= tol && rsref::AngDist(a.th, b.th) <= tol; }
	std::ostream& operator<<(std::ostream& o, const V3& v) { return o << "(" << v.x << "," << v.y << "," << v.th << ")"; }

	double Ratio(Rng& r) { return r.P(0.25) ? r.Pick({ 0.0, 1.0, 0.5 }) : r.P(0.1) ? r.Pick({ 1e-12, 1 - 1e-12, 1e-3 }) : r.U(); }

	/// An independent description of a path: arc length -> pose and direction of travel.
	struct Model {
		std::function<V3(double)> at; // arc length -> state
		double length = 0;
		double speed = 1; // distance covered by the reference point per unit of length
		std::function<int(double)> dir; // arc length -> +1 / -1 (only if directional)
		std::vector<double> cusps; // arc lengths
		double uncertain = 1e-7; // distance to a cusp within which the direction is not checked
	};

	/// Everything a path must satisfy against its model, with tolerance.
	template <typename State>
	void CheckPath(Ctx& c, const Path<State>& p, const Model& m, const char* what)
	{
		Rng& r = c.rng;
		const double tol = 1e-6 * (1 + m.length);
		c.Check(std::fabs(p.GetLength() - m.length) <= tol, "length", VF_MSG(what << ": length " << p.GetLength() << ", expected " << m.length));
		c.Check(Same(To(p.GetInitialState()), m.at(0), tol), "initial-state", VF_MSG(what << ": initial state " << To(p.GetInitialState()) << ", expected " << m.at(0)));
		c.Check(Same(To(p.GetFinalState()), m.at(m.length), tol), "final-state", VF_MSG(what << ": final state " << To(p.GetFinalState()) << ", expected " << m.at(m.length)));
		std::vector<double> ratios { 0.0, 1.0 };
		for (int i = 0; i < 6; ++i) ratios.push_back(Ratio(r));
		auto many = p.Interpolate(ratios);
		if (!c.Check(many.size() == ratios.size(), "interpolate-many", VF_MSG(what << ": " << many.size() << " states for " << ratios.size() << " ratios"))) return;
		for (size_t i = 0; i < ratios.size(); ++i) {
			V3 got = To(p.Interpolate(ratios[i]));
			c.Check(Same(got, m.at(ratios[i] * m.length), tol), "interpolate", VF_MSG(what << ": at ratio " << ratios[i] << " of length " << m.length << " got " << got << ", expected " << m.at(ratios[i] * m.length)));
			c.Check(Same(got, To(many[i]), 1e-12), "interpolate-many", VF_MSG(what << ": the two overloads differ at ratio " << ratios[i]));
		}
		// bounded speed: a path never jumps
		for (int i = 0; i < 4; ++i) {
			double a = Ratio(r), b = Ratio(r);
			double d = Dist(To(p.Interpolate(a)), To(p.Interpolate(b)));
			c.Check(d <= std::fabs(a - b) * m.length * m.speed + tol, "speed", VF_MSG(what << ": between ratios " << a << " and " << b << " the path moves " << d << ", more than the distance along it"));
		}
	}
	void CheckDirection(Ctx& c, const PathNonHolonomicSE2Base& p, const Model& m, const char* what)
	{
		Rng& r = c.rng;
		if (m.length < 1e-6) return;
		auto str = [](Direction d) { return d == Direction::Forward ? "forward" : d == Direction::Backward ? "backward" : "no motion"; };
		for (int i = 0; i < 8; ++i) {
			double q = i == 0 ? 0.0 : i == 1 ? 1.0 : r.U();
			double s = q * m.length;
			bool near = false;
			for (double k : m.cusps) near |= std::fabs(k - s) < m.uncertain * (1 + m.length);
			if (near) continue;
			Direction want = m.dir(s) > 0 ? Direction::Forward : Direction::Backward;
			c.Check(p.GetDirection(q) == want, "direction", VF_MSG(what << ": at ratio " << q << " direction is " << str(p.GetDirection(q)) << ", expected " << str(want)));
		}
		auto got = p.GetCuspPointRatios();
		// every expected cusp is reported, and nothing else
		for (double k : m.cusps) {
			bool found = false;
			for (double g : got) found |= std::fabs(g * m.length - k) <= 1e-6 * (1 + m.length);
			c.Check(found, "cusp-reported", VF_MSG(what << ": direction reverses at " << k << " of " << m.length << " but the reported cusps are " << [&] { std::ostringstream o; for (double g : got) o << g * m.length << " "; return o.str(); }()));
		}
		for (double g : got) {
			bool known = false;
			for (double k : m.cusps) known |= std::fabs(g * m.length - k) <= 1e-6 * (1 + m.length);
			c.Check(known, "cusp-real", VF_MSG(what << ": reports a cusp at ratio " << g << " (length " << m.length << ") where the direction does not change"));
		}
		c.Count("cusps", (long)m.cusps.size());
	}

	Model Cut(const Model& m, double ratio)
	{
		Model n = m;
		n.length = m.length * ratio;
		n.cusps.clear();
		for (double k : m.cusps) if (k < n.length) n.cusps.push_back(k);
		return n;
	}
	/// Truncation that keeps clear of the cusps (there the outcome depends on rounding).
	double CutRatio(Rng& r, const Model& m)
	{
		for (int i = 0; i < 20; ++i) {
			double q = Ratio(r);
			bool ok = true;
			for (double k : m.cusps) ok &= std::fabs(k - q * m.length) > 1e-4 * (1 + m.length);
			if (ok) return q;
		}
		return 1.0;
	}

	Pose2d RandomPose(Rng& r) { return Pose2d(r.U(-20, 20), r.U(-20, 20), r.P(0.3) ? r.I(-2, 2) * M_PI / 2 : r.U(-M_PI, M_PI)); }

	Register line("path-r2", 1, [](Ctx& c) {
		Rng& r = c.rng;
		Point2d a(r.U(-20, 20), r.U(-20, 20)), b = r.P(0.05) ? a : Point2d(r.U(-20, 20), r.U(-20, 20));
		PathR2 direct(a, b);
		PathConnectionR2 conn;
		Ref<PathR2Base> p = r.P(0.5) ? conn.Connect(a, b) : makeRef<PathR2>(a, b);
		double L = std::hypot(b.x() - a.x(), b.y() - a.y());
		Model m;
		m.length = L;
		m.at = [=](double s) { double k = L > 0 ? s / L : 0; return V3 { a.x() + k * (b.x() - a.x()), a.y() + k * (b.y() - a.y()), 0 }; };
		c.desc << "(" << a.x() << "," << a.y() << ")-(" << b.x() << "," << b.y() << ")";
		c.Sig(a.x()); c.Sig(b.y());
		if (L > 0) c.Nontrivial();
		CheckPath(c, *p, m, "straight R2 path");
		for (int i = 0, n = r.I(0, 3); i < n; ++i) {
			double q = Ratio(r);
			p->Truncate(q);
			m = Cut(m, q);
			CheckPath(c, *p, m, "truncated R2 path");
		}
	});

	Register se2("path-se2", 1, [](Ctx& c) {
		Rng& r = c.rng;
		Pose2d a = RandomPose(r), b = RandomPose(r);
		PathConnectionSE2 conn;
		Ref<PathSE2Base> p = r.P(0.5) ? conn.Connect(a, b) : makeRef<PathSE2>(a, b);
		double L = (b.position - a.position).norm();
		Model m;
		m.length = L;
		// The heading may turn either way round: positions are compared along the way, headings at the ends.
		m.at = [=](double s) { double k = L > 0 ? s / L : 0; return V3 { a.x() + k * (b.x() - a.x()), a.y() + k * (b.y() - a.y()), a.theta + k * (b.theta - a.theta) }; };
		c.desc << To(a) << "-" << To(b);
		c.Sig(a.x()); c.Sig(b.y()); c.Sig(b.theta);
		if (L > 0) c.Nontrivial();
		CheckPath(c, *p, m, "straight SE2 path");
		for (int i = 0, n = r.I(0, 3); i < n; ++i) {
			double q = Ratio(r);
			p->Truncate(q);
			m = Cut(m, q);
			CheckPath(c, *p, m, "truncated SE2 path");
		}
	});

	std::pair<Ref<PathNonHolonomicSE2Base>, Model> MakeSteer(Rng& r, const Pose2d& a, Ref<KinematicBicycleModel> model, double wheelbase, double rear, double L = -1)
	{
		double steer = r.P(0.2) ? 0.0 : r.P(0.1) ? r.U(-1, 1) * 1e-11 : r.U(-1.2, 1.2);
		if (L < 0) L = r.P(0.05) ? 0.0 : r.P(0.8) ? r.U(0.1, 6) : r.U(6, 40);
		bool fwd = r.P(0.5);
		auto p = makeRef<PathConstantSteer>(model, a, steer, L, fwd ? Direction::Forward : Direction::Backward);
		Model m;
		m.length = L;
		double tb = std::tan(steer) * rear / wheelbase, beta = std::atan(tb);
		m.speed = 1 / std::cos(beta);
		double kappa = std::tan(steer) / wheelbase; // rear axle curvature
		V3 s0 = To(a);
		m.at = [=](double s) {
			// rear axle moves on its circle; the reference point is 'rear' ahead of it
			double d = fwd ? s : -s;
			double rx = s0.x - rear * std::cos(s0.th), ry = s0.y - rear * std::sin(s0.th), th = s0.th;
			double h = kappa * d / 2, chord = std::fabs(h) < 1e-8 ? d : d * std::sin(h) / h;
			rx += chord * std::cos(th + h);
			ry += chord * std::sin(th + h);
			th += 2 * h;
			return V3 { rx + rear * std::cos(th), ry + rear * std::sin(th), th };
		};
		m.dir = [=](double) { return fwd ? 1 : -1; };
		return { p, m };
	}

	Register steer("path-constant-steer", 2, [](Ctx& c) {
		Rng& r = c.rng;
		double wb = r.U(1, 4), rear = r.P(0.5) ? 0.0 : r.U(0, wb);
		auto model = makeRef<KinematicBicycleModel>(wb, rear);
		Pose2d a = RandomPose(r);
		auto [p, m] = MakeSteer(r, a, model, wb, rear);
		c.desc << "from " << To(a) << " wheelbase " << wb << " rear " << rear << " steer " << std::static_pointer_cast<PathConstantSteer>(p)->GetSteeringAngle() << " length " << m.length << (m.dir(0) > 0 ? " forward" : " backward");
		c.Sig(a.x()); c.Sig(m.length);
		if (m.length > 0) c.Nontrivial();
		CheckPath(c, *p, m, "constant-steer path");
		CheckDirection(c, *p, m, "constant-steer path");
		for (int i = 0, n = r.I(0, 3); i < n; ++i) {
			double q = Ratio(r);
			p->Truncate(q);
			m = Cut(m, q);
			CheckPath(c, *p, m, "truncated constant-steer path");
			CheckDirection(c, *p, m, "truncated constant-steer path");
		}
	});

	struct RsPath { Ref<PathReedsShepp> p; Model m; double R; std::vector<rsref::Seg> segs; };
	RsPath MakeRs(Rng& r, const Pose2d& a)
	{
		RsPath o;
		o.R = r.Pick({ 1.0, 0.7, 3.0 });
		if (r.P(0.4)) {
			ReedsShepp::PathSegment seg;
			int n = r.I(1, 5);
			for (int i = 0; i < n; ++i) {
				int k = r.I(-1, 1);
				double len = r.P(0.1) ? 0.0 : r.U(0.05, 3);
				bool fwd = r.P(0.5);
				seg.AddMotion(k > 0 ? Steer::Left : k < 0 ? Steer::Right : Steer::Straight, fwd ? Direction::Forward : Direction::Backward, len);
				o.segs.push_back({ k, fwd ? len : -len });
			}
			o.p = makeRef<PathReedsShepp>(a, seg, o.R);
		} else {
			PathConnectionReedsShepp conn(o.R, r.Pick({ 0.0, 1.0 }), r.Pick({ 1.0, 3.0 }), 1.0);
			Pose2d b = r.P(0.1) ? a : a + Pose2d(r.U(-6, 6) * o.R, r.U(-6, 6) * o.R, r.U(-3, 3));
			float sw = r.Pick({ 0.0, 1.0 }), rev = r.Pick({ 1.0, 3.0 });
			auto seg = ReedsShepp::Solver::GetOptimalPath(a, b, o.R, rev, 1.0f, sw);
			for (int i = 0; i < seg.GetNumMotions(); ++i) {
				auto& mo = seg.GetMotion(i);
				o.segs.push_back({ mo.steer == Steer::Left ? 1 : mo.steer == Steer::Right ? -1 : 0, mo.direction == Direction::Backward ? -mo.length : mo.length });
			}
			o.p = makeRef<PathReedsShepp>(a, seg, o.R);
		}
		double len = 0;
		int prev = 0;
		for (auto& s : o.segs) {
			if (std::fabs(s.len) < 1e-9) continue;
			int d = s.len > 0 ? 1 : -1;
			if (prev && d != prev) o.m.cusps.push_back(len);
			prev = d;
			len += std::fabs(s.len) * o.R;
		}
		o.m.length = len;
		auto segs = o.segs;
		double R = o.R;
		V3 s0 = To(a);
		o.m.at = [=](double s) {
			rsref::P p { s0.x, s0.y, s0.th };
			double left = s / R;
			for (auto& k : segs) {
				double use = std::min(std::fabs(k.len), left);
				p = rsref::Step(p, k.kind, k.len > 0 ? use : -use, R);
				left -= use;
				if (left <= 0) break;
			}
			return V3 { p.x, p.y, p.th };
		};
		o.m.dir = [=](double s) {
			double left = s / R;
			int d = 1;
			for (auto& k : segs) {
				if (std::fabs(k.len) < 1e-9) continue;
				d = k.len > 0 ? 1 : -1;
				if (left <= std::fabs(k.len)) break;
				left -= std::fabs(k.len);
			}
			return d;
		};
		return o;
	}
	/// Tiny non-zero motions make "is there a cusp" ambiguous.
	bool Ambiguous(const std::vector<rsref::Seg>& segs) { for (auto& s : segs) if (s.len != 0 && std::fabs(s.len) < 1e-5) return true; return false; }

	Register rs("path-reeds-shepp", 4, [](Ctx& c) {
		Rng& r = c.rng;
		Pose2d a = RandomPose(r);
		RsPath o = MakeRs(r, a);
		c.desc << "from " << To(a) << " R " << o.R << " motions ";
		for (auto& s : o.segs) c.desc << (s.kind > 0 ? 'L' : s.kind < 0 ? 'R' : 'S') << s.len << ' ';
		c.Sig(a.x()); c.Sig(o.m.length);
		if (o.m.length > 0) c.Nontrivial();
		CheckPath(c, *o.p, o.m, "Reeds-Shepp path");
		bool amb = Ambiguous(o.segs);
		if (!amb) CheckDirection(c, *o.p, o.m, "Reeds-Shepp path");
		for (int i = 0, n = r.I(0, 3); i < n && !c.Failed(); ++i) {
			double q = CutRatio(r, o.m);
			o.p->Truncate(q);
			o.m = Cut(o.m, q);
			c.desc << " truncate " << q;
			c.Count("truncations");
			CheckPath(c, *o.p, o.m, "truncated Reeds-Shepp path");
			if (!amb) {
				CheckDirection(c, *o.p, o.m, "truncated Reeds-Shepp path");
				double sw = 2, rev = 3, fwd = 1.5, want = 0, step = 0, left = o.m.length / o.R;
				for (auto& s : o.segs) { double use = std::min(left, std::fabs(s.len)); step += use * o.R * (s.len > 0 ? fwd : rev); left -= use; }
				want = step + sw * o.m.cusps.size();
				double got = o.p->ComputeCost(sw, rev, fwd);
				if (o.m.length > 1e-6)
					c.Check(std::fabs(got - want) <= 1e-4 * (1 + want), "cost-after-truncate", VF_MSG("cost " << got << " after truncation, expected " << want));
				double plain = o.p->ComputeCost(0, 1, 1);
				if (o.m.length > 1e-6)
					c.Check(std::fabs(plain - o.m.length) <= 1e-4 * (1 + o.m.length), "cost-after-truncate", VF_MSG("unweighted cost " << plain << " after truncation to length " << o.m.length));
			}
		}
	});

	Register composite("path-composite", 4, [](Ctx& c) {
		Rng& r = c.rng;
		double wb = 2.6, rear = r.P(0.7) ? 0.0 : 1.0;
		auto model = makeRef<KinematicBicycleModel>(wb, rear);
		PathSE2CompositeNonHolonomic comp;
		struct Part { double start; Model m; };
		auto parts = std::make_shared<std::vector<Part>>();
		Pose2d at = RandomPose(r);
		double len = 0, speed = 1;
		bool amb = false;
		int n = r.Rare(0.003) ? r.I(20, 150) : r.I(1, 6);
		Model m;
		auto append = [&](int k) {
			Model pm;
			Ref<PathNonHolonomicSE2Base> p;
			if (r.P(0.5)) {
				auto [q, qm] = MakeSteer(r, at, model, wb, rear);
				p = q;
				pm = qm;
			} else {
				RsPath o = MakeRs(r, at);
				p = o.p;
				pm = o.m;
				amb |= Ambiguous(o.segs);
			}
			comp.PushBack(p);
			if (pm.length > 0) {
				if (!parts->empty() && len > 0) {
					const Part* last = nullptr;
					for (auto& x : *parts) if (x.m.length > 0) last = &x;
					if (last && last->m.dir(last->m.length) != pm.dir(0)) m.cusps.push_back(len);
				}
				for (double k2 : pm.cusps) m.cusps.push_back(len + k2);
			}
			speed = std::max(speed, pm.speed);
			parts->push_back({ len, pm });
			V3 e = pm.at(pm.length);
			at = Pose2d(e.x, e.y, rsref::Wrap(e.th));
			len += pm.length;
			c.Sig(len);
			(void)k;
		};
		auto model_of = [&]() {
			m.length = len;
			m.speed = speed;
			auto find = [parts](double s) { const Part* best = &(*parts)[0]; for (auto& x : *parts) if (x.start <= s && x.m.length > 0) best = &x; return best; };
			m.at = [=](double s) { auto* x = find(s); return x->m.at(std::min(std::max(0.0, s - x->start), x->m.length)); };
			m.dir = [=](double s) { auto* x = find(s); return x->m.dir(s - x->start); };
		};
		for (int i = 0; i < n; ++i) append(i);
		model_of();
		c.desc << n << " parts, length " << len << ", " << m.cusps.size() << " cusps";
		if (n > 1 && len > 0) c.Nontrivial();
		c.Check(comp.Size() == (size_t)n, "size", VF_MSG("size " << comp.Size()));
		CheckPath(c, comp, m, "composite path");
		if (!amb) CheckDirection(c, comp, m, "composite path");
		for (int i = 0, k = r.I(0, 3); i < k && !c.Failed(); ++i) {
			if (r.P(0.7)) {
				double q = CutRatio(r, m);
				// stay clear of the joints as well
				bool joint = false;
				for (auto& x : *parts) joint |= std::fabs(x.start - q * len) < 1e-6 * (1 + len);
				if (joint && q != 1.0) continue;
				comp.Truncate(q);
				c.Count("truncations");
				c.desc << " truncate " << q;
				double L = q * len;
				m = Cut(m, q);
				while (parts->size() > 1 && parts->back().start > L) parts->pop_back();
				auto& last = parts->back();
				if (L - last.start < last.m.length) { auto full = last.m; last.m = Cut(full, full.length > 0 ? (L - last.start) / full.length : 1.0); }
				len = L;
				V3 e = last.m.at(last.m.length);
				at = Pose2d(e.x, e.y, rsref::Wrap(e.th));
			} else {
				append(n++);
				c.desc << " append";
			}
			model_of();
			CheckPath(c, comp, m, "modified composite path");
			if (!amb) CheckDirection(c, comp, m, "modified composite path");
		}
	});

	Register r2composite("path-composite-r2", 1, [](Ctx& c) {
		Rng& r = c.rng;
		PathComposite<Point2d> comp;
		int n = r.Rare(0.01) ? r.I(20, 400) : r.I(0, 6);
		std::vector<Point2d> pts { Point2d(r.U(-5, 5), r.U(-5, 5)) };
		c.desc << n << " straight parts";
		c.Sig(n); c.Sig(pts[0].x());
		if (n == 0) {
			bool threw = false;
			try { comp.Interpolate(0.3); } catch (const std::out_of_range&) { threw = true; }
			c.Check(threw, "empty-composite", VF_MSG("interpolating an empty composite path did not throw"));
			comp.Truncate(0.5);
			c.Check(comp.GetLength() == 0 && comp.Size() == 0, "empty-composite", VF_MSG("empty composite has length " << comp.GetLength()));
			return;
		}
		c.Nontrivial();
		for (int i = 0; i < n; ++i) {
			pts.push_back(r.P(0.15) ? pts.back() : Point2d(r.U(-5, 5), r.U(-5, 5)));
			comp.PushBack(makeRef<PathR2>(pts[i], pts[i + 1]));
		}
		double len = 0;
		for (int i = 0; i < n; ++i) len += (pts[i + 1] - pts[i]).norm();
		Model m;
		m.length = len;
		m.at = [pts, n](double s) {
			for (int i = 0; i < n; ++i) {
				double l = (pts[i + 1] - pts[i]).norm();
				if (s <= l || i == n - 1) { double k = l > 0 ? std::min(1.0, s / l) : 1.0; Point2d p = pts[i] + k * (pts[i + 1] - pts[i]); return To(p); }
				s -= l;
			}
			return To(pts[n]);
		};
		CheckPath(c, comp, m, "composite R2 path");
	});
}
