// Independent Reeds-Shepp reference: signed-length words solved in closed form, each
// candidate accepted only after integrating it to the goal with an exact unicycle step.
#pragma once
#include "common.h"

namespace rsref {
	struct P { double x, y, th; };
	inline double Wrap(double a)
	{
		a = std::fmod(a, 2 * M_PI);
		if (a > M_PI) a -= 2 * M_PI;
		if (a <= -M_PI) a += 2 * M_PI;
		return a;
	}
	inline double AngDist(double a, double b) { return std::fabs(Wrap(a - b)); }

	/// One motion: kind -1 right, 0 straight, +1 left; signed length (unit turning radius).
	struct Seg { int kind; double len; };

	inline P Step(P p, int kind, double s, double R = 1.0)
	{
		// s: signed normalised length, R: turning radius
		if (kind == 0)
			return { p.x + R * s * std::cos(p.th), p.y + R * s * std::sin(p.th), p.th };
		double th2 = p.th + kind * s;
		return { p.x + R * kind * (std::sin(th2) - std::sin(p.th)), p.y + R * kind * (-std::cos(th2) + std::cos(p.th)), th2 };
	}
	inline P Run(P p, const std::vector<Seg>& segs, double R = 1.0)
	{
		for (auto& s : segs) p = Step(p, s.kind, s.len, R);
		return p;
	}
	inline double Length(const std::vector<Seg>& segs) { double l = 0; for (auto& s : segs) l += std::fabs(s.len); return l; }
	inline double Cost(const std::vector<Seg>& segs, double R, double rev, double fwd, double sw)
	{
		double c = 0;
		int prev = 0;
		for (auto& s : segs) {
			if (s.len == 0) continue;
			int d = s.len > 0 ? 1 : -1;
			c += std::fabs(s.len) * R * (d > 0 ? fwd : rev);
			if (prev != 0 && d != prev) c += sw;
			prev = d;
		}
		return c;
	}

	/// All words reaching (x, y, phi) from the origin (each verified).
	inline std::vector<std::vector<Seg>> Words(double x0, double y0, double phi0, double tol = 1e-7)
	{
		const double Z = 1e-12, PI = M_PI;
		auto polar = [](double x, double y, double& r, double& th) { r = std::sqrt(x * x + y * y); th = std::atan2(y, x); };
		auto m2 = [](double a) { return Wrap(a); };
		std::vector<std::vector<Seg>> out;
		auto add = [&](std::vector<Seg> segs, bool back, int tf, int rf) {
			if (back) std::reverse(segs.begin(), segs.end());
			for (auto& s : segs) { s.len *= tf; s.kind *= rf; }
			P e = Run({ 0, 0, 0 }, segs);
			if (std::hypot(e.x - x0, e.y - y0) < tol && AngDist(e.th, phi0) < tol)
				out.push_back(segs);
		};
		for (int back = 0; back < 2; ++back)
			for (int tf = 1; tf >= -1; tf -= 2)
				for (int rf = 1; rf >= -1; rf -= 2) {
					double x = x0, y = y0, phi = phi0;
					if (back) { double xb = x0 * std::cos(phi0) + y0 * std::sin(phi0), yb = x0 * std::sin(phi0) - y0 * std::cos(phi0); x = xb; y = yb; }
					if (tf < 0) { x = -x; phi = -phi; }
					if (rf < 0) { y = -y; phi = -phi; }
					double t, u, v, u1, t1, th, rho;
					const double s = std::sin(phi), c = std::cos(phi);
					double xa = x - s, ya = y - 1 + c; // same-side centre difference
					double xo = x + s, yo = y - 1 - c; // opposite-side
					auto tauOmega = [&](double uu, double vv, double xi, double eta, double& tau, double& om) {
						double d = m2(uu - vv), A = std::sin(uu) - std::sin(d), B = std::cos(uu) - std::cos(d) - 1;
						double a1 = std::atan2(eta * A - xi * B, xi * A + eta * B);
						double a2 = 2 * (std::cos(d) - std::cos(vv) - std::cos(uu)) + 3;
						tau = a2 < 0 ? m2(a1 + PI) : m2(a1);
						om = m2(tau - uu + vv - phi);
					};
					// LSL
					polar(xa, ya, u, t);
					if (t >= -Z) { v = m2(phi - t); if (v >= -Z) add({ { 1, t }, { 0, u }, { 1, v } }, back, tf, rf); }
					// LSR
					polar(xo, yo, u1, t1);
					if (u1 * u1 >= 4) {
						u = std::sqrt(u1 * u1 - 4);
						t = m2(t1 + std::atan2(2, u));
						v = m2(t - phi);
						if (t >= -Z && v >= -Z) add({ { 1, t }, { 0, u }, { -1, v } }, back, tf, rf);
					}
					// LRL
					polar(xa, ya, u1, th);
					if (u1 <= 4) {
						u = -2 * std::asin(u1 / 4);
						t = m2(th + u / 2 + PI);
						v = m2(phi - t + u);
						if (t >= -Z && u <= Z) add({ { 1, t }, { -1, u }, { 1, v } }, back, tf, rf);
					}
					// LRLR
					rho = 0.25 * (2 + std::sqrt(xo * xo + yo * yo));
					if (rho <= 1) {
						u = std::acos(rho);
						tauOmega(u, -u, xo, yo, t, v);
						if (t >= -Z && v <= Z) add({ { 1, t }, { -1, u }, { 1, -u }, { -1, v } }, back, tf, rf);
					}
					rho = (20 - xo * xo - yo * yo) / 16;
					if (rho >= 0 && rho <= 1) {
						u = -std::acos(rho);
						if (u >= -PI / 2) {
							tauOmega(u, u, xo, yo, t, v);
							if (t >= -Z && v >= -Z) add({ { 1, t }, { -1, u }, { 1, u }, { -1, v } }, back, tf, rf);
						}
					}
					// L R(pi/2) S L
					polar(xa, ya, rho, th);
					if (rho >= 2) {
						double r = std::sqrt(rho * rho - 4);
						u = 2 - r;
						t = m2(th + std::atan2(r, -2));
						v = m2(phi - PI / 2 - t);
						if (t >= -Z && u <= Z && v <= Z) add({ { 1, t }, { -1, -PI / 2 }, { 0, u }, { 1, v } }, back, tf, rf);
					}
					// L R(pi/2) S R
					polar(-yo, xo, rho, th);
					if (rho >= 2) {
						t = th;
						u = 2 - rho;
						v = m2(t + PI / 2 - phi);
						if (t >= -Z && u <= Z && v <= Z) add({ { 1, t }, { -1, -PI / 2 }, { 0, u }, { -1, v } }, back, tf, rf);
					}
					// L R(pi/2) S L(pi/2) R
					polar(xo, yo, rho, th);
					if (rho >= 2) {
						u = 4 - std::sqrt(rho * rho - 4);
						if (u <= Z) {
							t = m2(std::atan2((4 - u) * xo - 2 * yo, -2 * xo + (u - 4) * yo));
							v = m2(t - phi);
							if (t >= -Z && v >= -Z) add({ { 1, t }, { -1, -PI / 2 }, { 0, u }, { 1, -PI / 2 }, { -1, v } }, back, tf, rf);
						}
					}
				}
		return out;
	}
}
