// C23: what the library promises to programs with several threads.
#include "graphs.h"
#include "world.h"
#include "algo/hybrid_a_star.h"
#include "debug/profiler.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
#include "state_validator/gvd.h"
#include "utils/singleton.h"
#include <atomic>
#include <condition_variable>
#include <fstream>
#include <thread>
using namespace vf;

namespace {
	/// Threads leave it together, so that what follows really runs at the same time.
	class Gate {
	public:
		explicit Gate(int n) : m_left(n) { }
		void Wait()
		{
			m_left.fetch_sub(1);
			while (m_left.load() > 0) { }
		}
	private:
		std::atomic<int> m_left;
	};

	void Spin(int n)
	{
		volatile int x = 0;
		for (int i = 0; i < n; ++i)
			x = x + i;
	}

	template <typename F>
	void InThreads(int n, F f)
	{
		std::vector<std::thread> t;
		Gate gate(n);
		for (int i = 0; i < n; ++i)
			t.emplace_back([&, i] { gate.Wait(); f(i); });
		for (auto& x : t)
			x.join();
	}

	/// Only its constructor decides what it holds, and how long that takes.
	template <template <class> class Base, int K>
	class Object : public Base<Object<Base, K>> {
		friend Base<Object<Base, K>>;

	public:
		~Object() { destroyed++; magic = 0; }
		unsigned magic = 0;
		std::vector<int> payload;
		inline static std::atomic<int> constructed { 0 }, destroyed { 0 };
		inline static std::atomic<int> delay { 0 };

	private:
		Object()
		{
			constructed++;
			Spin(delay / 2);
			for (int i = 0; i < 32; ++i)
				payload.push_back(i * 3);
			Spin(delay / 2);
			magic = 0xC0FFEE;
		}
	};

	template <typename T>
	bool Whole(const T& t)
	{
		if (t.magic != 0xC0FFEE || t.payload.size() != 32)
			return false;
		for (int i = 0; i < 32; ++i)
			if (t.payload[(size_t)i] != i * 3)
				return false;
		return true;
	}

	template <int K>
	void SharedCase(Ctx& c)
	{
		using T = Object<SingletonThreadSafe, K>;
		auto& r = c.rng;
		int rounds = r.I(3, 12);
		for (int k = 0; k < rounds && !c.Failed(); ++k) {
			int n = r.I(2, 8), gets = r.I(1, 4);
			T::delay = r.P(0.3) ? 0 : r.I(1, 20000);
			std::vector<int> lag;
			for (int i = 0; i < n; ++i)
				lag.push_back(r.P(0.5) ? 0 : r.I(0, 4000));
			int before = T::constructed, gone = T::destroyed;
			std::vector<std::vector<T*>> got((size_t)n);
			std::vector<char> whole((size_t)n, 1);
			InThreads(n, [&](int i) {
				Spin(lag[(size_t)i]);
				for (int g = 0; g < gets; ++g) {
					T& t = T::Get();
					got[(size_t)i].push_back(&t);
					if (!Whole(t))
						whole[(size_t)i] = 0;
				}
			});
			c.Sig(n); c.Sig(gets); c.Sig(lag[0]);
			c.desc << " " << n << "x" << gets;
			c.Count("threads", n);
			c.Check(T::constructed - before == 1, "one-instance", VF_MSG(n << " threads constructed " << T::constructed - before << " instances"));
			for (int i = 0; i < n; ++i) {
				c.Check(whole[(size_t)i], "whole-instance", VF_MSG("thread " << i << " of " << n << " saw an instance that is not constructed"));
				for (T* p : got[(size_t)i])
					c.Check(p == got[0][0], "same-instance", VF_MSG("threads were given two instances"));
			}
			c.Check(T::destroyed == gone, "kept", VF_MSG("the instance was destroyed while in use"));
			if (r.P(0.5)) { // releasing is idempotent, from any number of threads
				int m = r.I(1, 4);
				InThreads(m, [&](int) { T::Release(); });
			} else
				T::Release();
			c.Check(T::destroyed - gone == 1, "released-once", VF_MSG("released " << T::destroyed - gone << " times"));
		}
		c.Nontrivial();
	}
	Register shared("singleton-threads", 4, [](Ctx& c) { if (c.rng.P(0.5)) SharedCase<0>(c); else SharedCase<1>(c); });

	struct Held : public SingletonInit<Held> {
		int a;
		std::string b;
		Held(int x, std::string y) : a(x), b(std::move(y)) { live++; }
		~Held() { live--; }
		inline static int live = 0;
	};

	Register plainSingle("singleton", 1, [](Ctx& c) {
		using T = Object<Singleton, 0>;
		auto& r = c.rng;
		T* cur = nullptr;
		int before = T::constructed, gone = T::destroyed, made = 0, freed = 0;
		for (int k = 0; k < 20; ++k) {
			int op = r.I(0, 3);
			c.Sig(op);
			if (op <= 1) {
				T& t = T::Get();
				if (!cur)
					made++;
				c.Check(Whole(t), "whole-instance", VF_MSG("not constructed"));
				c.Check(!cur || cur == &t, "same-instance", VF_MSG("another instance"));
				cur = &t;
			} else if (op == 2) {
				T::Init();
				if (!cur)
					made++;
				T* t = &T::Get();
				c.Check(!cur || cur == t, "same-instance", VF_MSG("initialising again gives another instance"));
				cur = t;
			} else {
				T::Release();
				if (cur)
					freed++;
				cur = nullptr;
			}
			c.Check(T::constructed - before == made, "one-instance", VF_MSG(T::constructed - before << " constructed, expected " << made));
			c.Check(T::destroyed - gone == freed, "released-once", VF_MSG(T::destroyed - gone << " destroyed, expected " << freed));
		}
		T::Release();
		int x = r.I(-1000, 1000);
		std::string s(r.I(0, 60), 'x');
		Held::Init(x, s);
		c.Check(Held::Get().a == x && Held::Get().b == s && &Held::Get() == &Held::Get(), "arguments", VF_MSG("the instance is not built with the arguments given"));
		Held::Release();
		Held::Release();
		c.Check(Held::live == 0, "released-once", VF_MSG(Held::live << " live instances"));
		c.Nontrivial();
	});

	// ------------------------------------------------------------------ planners
	std::vector<double> Job(uint64_t seed, int kind)
	{
		std::map<std::string, long> counters;
		Ctx c;
		c.counters = &counters;
		c.rng = Rng(seed);
		auto& r = c.rng;
		std::vector<double> out;
		if (kind == 0) { // A* and bidirectional A* on a grid
			auto map = makeRef<CellMap>(20, 20);
			FillMap(r, *map);
			auto euclid = [](const GridCellPosition& x, const GridCellPosition& y) { return std::hypot(x.row - y.row, x.col - y.col); };
			for (int k = 0; k < 3; ++k) {
				GridCellPosition s(r.I(0, 19), r.I(0, 19)), g(r.I(0, 19), r.I(0, 19));
				AStarN2 a;
				a.Initialize(makeRef<AStarStatePropagatorFcnN2>(map, euclid), makeRef<AStarHeuristicFcnN2>(euclid));
				a.SetInitState(s);
				a.SetGoalState(g);
				out.push_back(a.SearchPath());
				out.push_back(a.GetOptimalCost());
				for (auto& p : a.GetPath())
					out.push_back(p.row * 1000 + p.col);
				BidirectionalAStarN2 b;
				auto [f, rv] = BidirectionalAStarN2::GetAverageHeuristicPair(makeRef<AStarHeuristicFcnN2>(euclid), makeRef<AStarHeuristicFcnN2>(euclid));
				b.Initialize(makeRef<AStarStatePropagatorFcnN2>(map, euclid), makeRef<AStarStatePropagatorFcnN2>(map, euclid), f, rv);
				b.SetInitState(s);
				b.SetGoalState(g);
				out.push_back(b.SearchPath());
				out.push_back(b.GetOptimalCost());
			}
		} else if (kind == 1) { // Reeds-Shepp
			for (int k = 0; k < 30; ++k) {
				Pose2d a(r.U(-5, 5), r.U(-5, 5), r.U(-3, 3)), b(r.U(-5, 5), r.U(-5, 5), r.U(-3, 3));
				auto seg = ReedsShepp::Solver::GetOptimalPath(a, b, 1.3, 1.5, 1, 0.2);
				PathReedsShepp p(a, seg, 1.3);
				for (int i = 0; i <= 10; ++i) {
					auto q = p.Interpolate(i / 10.0);
					out.insert(out.end(), { q.x(), q.y(), q.theta });
				}
			}
		} else { // maps, Voronoi diagram, hybrid A*
			maps::WorldOptions o;
			o.halfMin = 3;
			o.halfMax = 4;
			auto w = maps::MakeWorld(c, o);
			GVD gvd(w.map);
			gvd.Update();
			for (int i = 0; i < w.rows; ++i)
				for (int j = 0; j < w.cols; ++j) {
					out.push_back(gvd.GetDistanceToNearestObstacle({ i, j }));
					out.push_back(gvd.GetPathCost({ i, j }));
				}
			HybridAStar planner(HybridAStar::SearchParameters(1.2, 0.2, 1.2, 1, 0.5, 5, 1.0, 0.4));
			planner.Initialize(w.validator);
			Pose2d s, g;
			if (w.FreePose(r, s) && w.FreePose(r, g)) {
				planner.SetInitState(s);
				planner.SetGoalState(g);
				out.push_back(planner.SearchPath());
				out.push_back(planner.GetGraphSearchOptimalCost());
				for (auto& p : planner.GetPath())
					out.insert(out.end(), { p.x(), p.y(), p.theta });
			}
		}
		return out;
	}

	Register parallel("independent-planners", 2, [](Ctx& c) {
		PP_INIT;
		auto& r = c.rng;
		int n = r.I(2, 6);
		PP_INIT_PROFILER; // before there are threads
		std::vector<uint64_t> seeds;
		std::vector<int> kinds;
		std::vector<std::vector<double>> alone, together((size_t)n);
		for (int i = 0; i < n; ++i) {
			seeds.push_back(r.P(0.3) && i > 0 ? seeds[0] : r.Next());
			kinds.push_back(r.P(0.3) && i > 0 ? kinds[0] : r.I(0, 2));
			alone.push_back(Job(seeds.back(), kinds.back()));
			c.desc << " " << kinds.back();
			c.Sig(seeds.back());
		}
		InThreads(n, [&](int i) { together[(size_t)i] = Job(seeds[(size_t)i], kinds[(size_t)i]); });
		for (int i = 0; i < n; ++i) {
			bool same = alone[(size_t)i].size() == together[(size_t)i].size();
			for (size_t k = 0; same && k < alone[(size_t)i].size(); ++k)
				same = alone[(size_t)i][k] == together[(size_t)i][k] || (std::isnan(alone[(size_t)i][k]) && std::isnan(together[(size_t)i][k]));
			c.Check(same, "same-answer", VF_MSG("a planner of kind " << kinds[(size_t)i] << " gives another answer when " << n - 1 << " others run at the same time"));
		}
		c.Count("threads", n);
		c.Nontrivial();
	});

#ifdef PP_ENABLE_PROFILING
	// ------------------------------------------------------------------ profiler
	/// A small JSON reader: objects, arrays, strings, numbers.
	struct Json {
		const std::string& s;
		size_t at = 0;
		bool ok = true;
		using Obj = std::map<std::string, std::string>;
		std::vector<Obj> events;

		void Skip() { while (at < s.size() && (s[at] == ' ' || s[at] == '\n')) at++; }
		bool Eat(char ch) { Skip(); if (at < s.size() && s[at] == ch) { at++; return true; } return false; }
		std::string String()
		{
			std::string r;
			if (!Eat('"')) { ok = false; return r; }
			while (at < s.size() && s[at] != '"') {
				if (s[at] == '\\' || (unsigned char)s[at] < 0x20) { ok = false; return r; }
				r += s[at++];
			}
			if (!Eat('"')) ok = false;
			return r;
		}
		std::string Value()
		{
			Skip();
			if (at < s.size() && s[at] == '"')
				return String();
			std::string r;
			while (at < s.size() && (isdigit((unsigned char)s[at]) || s[at] == '-' || s[at] == '.' || s[at] == 'e'))
				r += s[at++];
			if (r.empty()) ok = false;
			return r;
		}
		Obj Object()
		{
			Obj o;
			if (!Eat('{')) { ok = false; return o; }
			if (Eat('}')) return o;
			do {
				std::string k = String();
				if (!ok || !Eat(':')) { ok = false; return o; }
				if (o.count(k)) ok = false;
				o[k] = Value();
			} while (ok && Eat(','));
			if (!Eat('}')) ok = false;
			return o;
		}
		bool Parse()
		{
			if (!Eat('{')) return false;
			if (String() != "otherData" || !Eat(':')) return false;
			Object();
			if (!Eat(',') || String() != "traceEvents" || !Eat(':') || !Eat('[')) return false;
			do
				events.push_back(Object());
			while (ok && Eat(','));
			if (!ok || !Eat(']') || !Eat('}')) return false;
			Skip();
			return at == s.size();
		}
	};

	void Inner() { PP_PROFILE_SCOPE("inner"); Spin(200); }
	void Quoted() { PP_PROFILE_SCOPE("a \"quoted\" name"); Spin(20); }
	void Cdecl() { PP_PROFILE_SCOPE("void __cdecl f(int)"); Spin(20); }
	void Outer(int n) { PP_PROFILE_SCOPE("outer"); for (int i = 0; i < n; ++i) Inner(); }
	void Function() { PP_PROFILE_FUNCTION(); Spin(10); }

	Register profiler("profiler", 2, [](Ctx& c) {
		auto& r = c.rng;
		int n = r.I(1, 8);
		std::vector<std::vector<int>> plan((size_t)n);
		std::map<std::string, long> want;
		for (auto& p : plan) {
			int m = r.I(0, 25);
			for (int i = 0; i < m; ++i) {
				int op = r.I(0, 5);
				p.push_back(op);
				if (op == 0) want["inner"]++;
				if (op == 1) want["a 'quoted' name"]++;
				if (op == 2) want["void f(int)"]++;
				if (op == 3) { want["outer"]++; want["inner"] += 3; }
				if (op == 4) want["stopped"]++;
				if (op == 5) want["fn"]++;
			}
			c.Sig(m);
		}
		Profiler::Release(); // the session of the earlier cases
		PP_INIT_PROFILER;
		std::vector<std::string> ids((size_t)n);
		auto now = [] { return (long long)std::chrono::time_point_cast<std::chrono::microseconds>(std::chrono::high_resolution_clock::now()).time_since_epoch().count(); };
		long long t0 = now();
		InThreads(n, [&](int i) {
			std::ostringstream os;
			os << std::this_thread::get_id();
			ids[(size_t)i] = os.str();
			for (int op : plan[(size_t)i]) {
				if (op == 0) Inner();
				else if (op == 1) Quoted();
				else if (op == 2) Cdecl();
				else if (op == 3) Outer(3);
				else if (op == 4) { ProfilingTimer t("stopped"); Spin(10); t.Stop(); }
				else Function();
			}
		});
		long long t1 = now();
		Profiler::Release();
		std::ifstream in("profiling.json");
		std::stringstream buf;
		buf << in.rdbuf();
		std::string text = buf.str();
		Json j { text };
		if (!c.Check(j.Parse(), "well-formed", VF_MSG("the trace of " << n << " threads is not well-formed at byte " << j.at << " of " << text.size() << ": ..." << text.substr(j.at > 80 ? j.at - 80 : 0, 160))))
			return;
		std::map<std::string, long> got, perThread;
		std::map<std::string, std::vector<std::pair<long long, long long>>> outer, inner;
		for (auto& e : j.events) {
			if (e.empty())
				continue;
			std::string name = e["name"];
			if (name.find("Function") != std::string::npos)
				name = "fn";
			got[name]++;
			perThread[e["tid"]]++;
			long long ts = std::stoll(e["ts"]), dur = std::stoll(e["dur"]);
			c.Check(dur >= 0 && ts >= t0 && ts + dur <= t1, "within-session", VF_MSG("event " << name << " from " << ts << " for " << dur << " outside of [" << t0 << ", " << t1 << "]"));
			c.Check(e["ph"] == "X", "complete-event", VF_MSG("phase " << e["ph"]));
			if (name == "outer") outer[e["tid"]].push_back({ ts, ts + dur });
			if (name == "inner") inner[e["tid"]].push_back({ ts, ts + dur });
		}
		for (auto& [k, v] : want)
			c.Check(got[k] == v, "exactly-once", VF_MSG(got[k] << " events named " << k << ", expected " << v));
		for (auto& [k, v] : got)
			c.Check(want.count(k) || v == 0, "exactly-once", VF_MSG(v << " unexpected events named " << k));
		for (int i = 0; i < n; ++i) {
			long m = 0;
			for (int op : plan[(size_t)i])
				m += op == 3 ? 4 : 1;
			c.Check(m == 0 || perThread[ids[(size_t)i]] >= m, "thread-id", VF_MSG("thread " << ids[(size_t)i] << " has " << perThread[ids[(size_t)i]] << " events, expected " << m));
		}
		for (auto& [tid, v] : outer)
			for (auto& [a, b] : v) {
				long k = 0;
				for (auto& [x, y] : inner[tid])
					k += x >= a && y <= b;
				c.Check(k >= 3, "nested", VF_MSG("an outer event contains " << k << " of the 3 inner ones"));
			}
		c.Count("events", (long)j.events.size() - 1);
		c.Count("threads", n);
		c.desc << n << " threads " << j.events.size() - 1 << " events";
		c.Nontrivial();
	});
#endif
}
