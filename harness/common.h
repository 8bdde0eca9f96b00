// Shared harness runtime: seeded workloads, violation reporting, coverage counting.
// A harness registers workloads; main() (in this header) runs a range of cases and
// appends one line per event to the --out file so the driver can tell exactly what
// was observed, even when the code under test kills the process.
#pragma once
#include <cctype>
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

namespace vf {
	inline uint64_t Mix(uint64_t x)
	{
		x += 0x9e3779b97f4a7c15ull;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return x ^ (x >> 31);
	}

	struct Rng {
		uint64_t s;
		explicit Rng(uint64_t seed) : s(seed) { }
		uint64_t Next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
		double U() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
		double U(double a, double b) { return a + (b - a) * U(); }
		/// Uniform integer in [a, b].
		int I(int a, int b) { return a + (int)(Next() % (uint64_t)((int64_t)b - a + 1)); }
		bool P(double p) { return U() < p; }
		/// A rare large case. The checking containers verify a whole heap or range at each operation: they get
		/// none, their cost grows with the square of the size.
		bool Rare(double p)
		{
			bool large = P(p);
#ifdef _GLIBCXX_DEBUG
			large = false;
#endif
			return large;
		}
		template <typename T> const T& Pick(const std::vector<T>& v) { return v[Next() % v.size()]; }
		double Pick(std::initializer_list<double> v) { return *(v.begin() + Next() % v.size()); }
		template <typename T> void Shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[Next() % i]); }
	};

	struct Violation {
		std::string key, msg;
	};

	struct Ctx {
		Rng rng { 0 };
		uint64_t index = 0, seed = 0;
		bool thorough = false;
		std::ostringstream desc; // what this case is, written out
		uint64_t sig = 0; // hash of what makes the case distinct
		bool nontrivial = false;
		std::map<std::string, long>* counters = nullptr;
		std::vector<Violation> violations;

		void Sig(uint64_t v) { sig = Mix(sig ^ v) + 1; }
		void Sig(double v) { uint64_t b; std::memcpy(&b, &v, 8); Sig(b); }
		void Sig(int v) { Sig((uint64_t)(int64_t)v); }
		void Count(const std::string& name, long n = 1) { (*counters)[name] += n; }
		void Max(const std::string& name, long n) { long& c = (*counters)["max:" + name]; if (n > c) c = n; }
		void Nontrivial() { nontrivial = true; }
		/// Record a violation; only the first of each kind in a case is kept.
		void Fail(const std::string& key, const std::string& msg)
		{
			for (auto& v : violations)
				if (v.key == key)
					return;
			violations.push_back({ key, msg });
		}
		/// Check a monitored condition.
		template <typename F>
		bool Check(bool cond, const char* key, F&& msg)
		{
			Count(std::string("chk:") + key);
			if (!cond) {
				std::ostringstream os;
				os.precision(17);
				msg(os);
				Fail(key, os.str());
			}
			return cond;
		}
		bool Failed() const { return !violations.empty(); }
	};

#define VF_MSG(expr) [&](std::ostream& os) { os << expr; }

	/// A binary pixmap (PPM, P6) as the library writes it.
	struct Image {
		int width = 0, height = 0;
		std::string data;
		bool Read(const char* file)
		{
			FILE* f = fopen(file, "rb");
			if (!f)
				return false;
			std::string all;
			char buf[4096];
			for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;)
				all.append(buf, n);
			fclose(f);
			unlink(file);
			size_t pos = 0;
			std::vector<std::string> words;
			while (words.size() < 4 && pos < all.size()) {
				if (isspace((unsigned char)all[pos])) { pos++; continue; }
				if (all[pos] == '#') { while (pos < all.size() && all[pos] != '\n') pos++; continue; }
				size_t b = pos;
				while (pos < all.size() && !isspace((unsigned char)all[pos])) pos++;
				words.push_back(all.substr(b, pos - b));
			}
			if (words.size() < 4 || words[0] != "P6" || words[3] != "255" || pos >= all.size())
				return false;
			width = atoi(words[1].c_str());
			height = atoi(words[2].c_str());
			data = all.substr(pos + 1);
			return data.size() == (size_t)width * height * 3;
		}
		/// x to the right, y downwards
		std::array<int, 3> At(int x, int y) const
		{
			const unsigned char* p = (const unsigned char*)data.data() + 3 * ((size_t)y * width + x);
			return { p[0], p[1], p[2] };
		}
	};

	struct Workload {
		std::string name;
		int weight;
		std::function<void(Ctx&)> fn;
	};

	inline std::vector<Workload>& Workloads()
	{
		static std::vector<Workload> w;
		return w;
	}

	struct Register {
		Register(const char* name, int weight, std::function<void(Ctx&)> fn) { Workloads().push_back({ name, weight, std::move(fn) }); }
	};

	inline std::string Escape(const std::string& s)
	{
		std::string r;
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c == '\n') r += "\\n";
			else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += c;
		}
		return r;
	}

	inline int& OutFd() { static int fd = 1; return fd; }
	inline void Line(const std::string& s)
	{
		std::string t = s + "\n";
		size_t off = 0;
		while (off < t.size()) {
			ssize_t n = ::write(OutFd(), t.data() + off, t.size() - off);
			if (n <= 0)
				break;
			off += (size_t)n;
		}
	}

	inline void OnCpuLimit(int)
	{
		static const char msg[] = "{\"t\":\"hang\"}\n";
		ssize_t r = ::write(OutFd(), msg, sizeof msg - 1);
		(void)r;
		_exit(77);
	}

	inline uint64_t& RandomDeviceState() { static uint64_t s = 1; return s; }
	inline volatile double& Sink() { static volatile double d = 0; return d; }

	inline int Main(int argc, char** argv)
	{
		uint64_t seed = 1, start = 0, count = 1;
		long cpuLimit = 60, asLimitMb = 0;
		std::string out, only;
		bool thorough = false, list = false;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : "0"); };
			if (a == "--seed") seed = std::stoull(val());
			else if (a == "--start") start = std::stoull(val());
			else if (a == "--count") count = std::stoull(val());
			else if (a == "--out") out = val();
			else if (a == "--only") only = val();
			else if (a == "--cpu") cpuLimit = std::stol(val());
			else if (a == "--as-mb") asLimitMb = std::stol(val());
			else if (a == "--thorough") thorough = true;
			else if (a == "--list") list = true;
			else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 64; }
		}
		auto& ws = Workloads();
		if (list) {
			for (auto& w : ws)
				printf("%s %d\n", w.name.c_str(), w.weight);
			return 0;
		}
		std::sort(ws.begin(), ws.end(), [](auto& a, auto& b) { return a.name < b.name; });
		int totalWeight = 0;
		for (auto& w : ws)
			totalWeight += w.weight;
		if (!out.empty())
			OutFd() = ::open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
		if (asLimitMb > 0) {
			struct rlimit rl { (rlim_t)asLimitMb << 20, (rlim_t)asLimitMb << 20 };
			setrlimit(RLIMIT_AS, &rl);
		}
		struct rlimit core { 0, 0 };
		setrlimit(RLIMIT_CORE, &core);
		signal(SIGVTALRM, OnCpuLimit);

		std::map<std::string, long> counters;
		for (uint64_t i = start; i < start + count; ++i) {
			Ctx c;
			c.counters = &counters;
			c.index = i;
			c.seed = seed;
			c.thorough = thorough;
			c.rng = Rng(Mix(seed * 0x100000001b3ull ^ Mix(i)));
			RandomDeviceState() = Mix(seed ^ Mix(i + 77));
			c.desc.precision(10);
			const Workload* w = nullptr;
			if (!only.empty()) {
				for (auto& x : ws)
					if (x.name == only)
						w = &x;
				if (!w) { fprintf(stderr, "no workload %s\n", only.c_str()); return 64; }
			} else {
				int k = (int)(i % (uint64_t)totalWeight);
				for (auto& x : ws) {
					if (k < x.weight) { w = &x; break; }
					k -= x.weight;
				}
			}
			for (char ch : w->name) c.Sig((uint64_t)ch);
			Line("{\"t\":\"begin\",\"i\":" + std::to_string(i) + ",\"w\":\"" + w->name + "\"}");
			struct itimerval tv { { 0, 0 }, { cpuLimit, 0 } };
			setitimer(ITIMER_VIRTUAL, &tv, nullptr);
			try {
				w->fn(c);
			} catch (const std::exception& e) {
				c.Fail("exception", std::string("uncaught ") + typeid(e).name() + ": " + e.what());
			}
			struct itimerval off { { 0, 0 }, { 0, 0 } }, left {};
			setitimer(ITIMER_VIRTUAL, &off, &left);
			c.Max("case-cpu-ms", cpuLimit * 1000L - left.it_value.tv_sec * 1000L - left.it_value.tv_usec / 1000L);
			counters["workload:" + w->name]++;
			for (auto& v : c.violations)
				Line("{\"t\":\"fail\",\"i\":" + std::to_string(i) + ",\"w\":\"" + w->name + "\",\"key\":\"" + Escape(v.key) + "\",\"msg\":\"" + Escape(v.msg.substr(0, 1500)) + "\",\"desc\":\"" + Escape(c.desc.str().substr(0, 4000)) + "\"}");
			bool sample = (i - start) % 97 < (uint64_t)totalWeight && (i - start) < 97 && c.nontrivial;
			std::string line = "{\"t\":\"end\",\"i\":" + std::to_string(i) + ",\"n\":" + (c.nontrivial ? "1" : "0") + ",\"s\":\"" + std::to_string(c.sig) + "\"";
			if (sample)
				line += ",\"d\":\"" + Escape((w->name + ": " + c.desc.str()).substr(0, 600)) + "\"";
			Line(line + "}");
		}
		std::string line = "{\"t\":\"done\",\"counters\":{";
		bool first = true;
		for (auto& [k, v] : counters) {
			if (!first)
				line += ",";
			first = false;
			line += "\"" + Escape(k) + "\":" + std::to_string(v);
		}
		Line(line + "}}");
		return 0;
	}
}

#ifndef VF_NO_MAIN
// Make the library's own randomness a function of the case (its generators are
// seeded from std::random_device), so that a reported case can be replayed.
unsigned int std::random_device::_M_getval()
{
	uint64_t& s = vf::RandomDeviceState();
	s = vf::Mix(s);
	return (unsigned int)(s >> 16);
}

int main(int argc, char** argv)
{
	return vf::Main(argc, argv);
}
#endif
