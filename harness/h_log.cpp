// C26: what the library writes when it is built with logging.
#include "common.h"
#include "core/base.h"
#include "algo/a_star.h"
#include "maps.h"
#include "state_validator/gvd.h"
#include "models/kinematic_bicycle_model.h"
#include "state_space/state_space_se2.h"
#include <atomic>
#include <fstream>
#include <regex>
#include <thread>
using namespace vf;
using namespace Planner;

namespace {
	struct Message {
		int level = 0;
		std::string text;
	};
	const char* const levels[] = { "trace", "info", "warning", "error", "critical" };

	void Emit(const Message& m)
	{
		switch (m.level) {
		case 0: PP_TRACE("{}", m.text); break;
		case 1: PP_INFO("{0}", m.text); break;
		case 2: PP_WARN("{}", m.text); break;
		case 3: PP_ERROR("{0}", m.text); break;
		default: PP_CRITICAL("{}", m.text); break;
		}
	}

	std::vector<std::string> LinesOf(const char* file)
	{
		std::ifstream in(file);
		std::vector<std::string> out;
		for (std::string s; std::getline(in, s);)
			out.push_back(s);
		return out;
	}

	/// While it lives, standard output goes to a file.
	struct Redirect {
		int saved;
		explicit Redirect(const char* file)
		{
			fflush(stdout);
			saved = dup(1);
			int fd = open(file, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
			dup2(fd, 1);
			close(fd);
		}
		~Redirect()
		{
			fflush(stdout);
			dup2(saved, 1);
			close(saved);
		}
	};

	Register messages("messages", 3, [](Ctx& c) {
		auto& r = c.rng;
		PP_INIT;
		bool again = r.P(0.5);
		if (again) { // a new session starts a new file
			Log::Release();
			PP_INIT;
			c.Check(LinesOf("path_planner.log").empty(), "log-new", VF_MSG("a new log starts with old messages"));
		}
		size_t before = LinesOf("path_planner.log").size();
		int threads = r.I(1, 6);
		std::vector<std::vector<Message>> say((size_t)threads);
		for (int t = 0; t < threads; ++t) {
			int n = r.I(0, 30);
			for (int i = 0; i < n; ++i) {
				Message m;
				m.level = r.I(0, 4);
				m.text = std::to_string(t) + "/" + std::to_string(i) + " ";
				int len = r.P(0.05) ? r.I(1000, 20000) : r.I(0, 60);
				for (int k = 0; k < len; ++k)
					m.text += (char)r.I(32, 126);
				m.text += "$";
				say[(size_t)t].push_back(m);
			}
		}
		{
			Redirect redirect("log-stdout");
			std::vector<std::thread> run;
			std::atomic<int> waiting { threads };
			for (int t = 0; t < threads; ++t)
				run.emplace_back([&, t] {
					waiting--;
					while (waiting > 0) { }
					for (auto& m : say[(size_t)t])
						Emit(m);
				});
			for (auto& t : run)
				t.join();
		}
		auto file = LinesOf("path_planner.log"), out = LinesOf("log-stdout");
		unlink("log-stdout");
		c.desc << threads << " threads" << (again ? ", new log" : "");
		size_t total = 0;
		for (auto& s : say)
			total += s.size();
		c.Sig(threads); c.Sig(total);
		c.Check(file.size() == before + total, "log-count", VF_MSG(total << " messages, " << file.size() - before << " lines in the file"));
		c.Check(out.size() == total, "log-count", VF_MSG(total << " messages, " << out.size() << " lines on the standard output"));
		if (c.Failed())
			return;
		file.erase(file.begin(), file.begin() + (long)before);
		for (int where = 0; where < 2; ++where) {
			std::vector<size_t> next((size_t)threads, 0);
			int swaps = 0, last = -1;
			for (auto& line : where ? out : file) {
				// [12:34:56] [info] Path-Planner: text      resp. without the level
				size_t p = line.find("Path-Planner: ");
				if (!c.Check(p != std::string::npos, "log-format", VF_MSG(line.substr(0, 200))))
					return;
				std::string head = line.substr(0, p), text = line.substr(p + 14);
				int t = atoi(text.c_str());
				bool ours = t >= 0 && t < threads && next[(size_t)t] < say[(size_t)t].size();
				const Message* m = ours ? &say[(size_t)t][next[(size_t)t]++] : nullptr;
				if (!c.Check(m && m->text == text, "log-text", VF_MSG("line " << line.substr(0, 200) << (m ? ", expected " + m->text.substr(0, 200) : std::string()))))
					return;
				if (!where)
					c.Check(head.find("[" + std::string(levels[m->level]) + "]") != std::string::npos, "log-level", VF_MSG(line.substr(0, 200) << " was logged as " << levels[m->level]));
				swaps += t != last;
				last = t;
			}
			c.Count("lines", (long)total);
			c.Count("switches", swaps);
			if (threads > 1 && swaps > threads)
				c.Nontrivial();
		}
	});

	// the library's own messages
	Register library("library", 1, [](Ctx& c) {
		auto& r = c.rng;
		PP_INIT;
		size_t before = LinesOf("path_planner.log").size();
		double rear = r.U(0.5, 2), radius = r.U(0, 3);
		bool unready = r.P(0.5), sink = r.P(0.5);
		{
			Redirect redirect("log-stdout");
			KinematicBicycleModel model(r.U(2, 4), rear);
			Sink() = model.GetSteeringAngleFromTurningRadius(radius);
			if (unready) {
				AStar<int> search;
				c.Check(search.SearchPath() == Status::Failure, "log-status", VF_MSG("searching without initialization succeeds"));
			}
			if (sink) {
				maps::MapSpec m = maps::RandomMap(r, 2, 5);
				makeRef<GVD>(m.map)->Visualize("no/such/directory/map.ppm");
			}
		}
		auto file = LinesOf("path_planner.log"), out = LinesOf("log-stdout");
		unlink("log-stdout");
		size_t want = (size_t)(radius < rear) + unready + sink, got = file.size() - before;
		c.desc << "radius " << radius << " rear " << rear << (unready ? ", search without initialization" : "") << (sink ? ", image without a directory" : "");
		c.Sig(radius); c.Sig(rear);
		c.Check(got == out.size(), "log-count", VF_MSG(got << " lines in the file, " << out.size() << " on the standard output"));
		c.Check(got >= want, "log-library", VF_MSG(want << " failures, " << got << " messages"));
		if (radius < rear) {
			bool named = false;
			for (size_t i = before; i < file.size(); ++i)
				named |= file[i].find(std::to_string(radius).substr(0, 4)) != std::string::npos;
			c.Check(named, "log-library", VF_MSG("no message names the radius " << radius));
		}
		if (want)
			c.Nontrivial();
	});
}
