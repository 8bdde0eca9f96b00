// C14: the frontier (priority list with unique membership) against a naive model.
#include "common.h"
#include "core/base.h"
#include "utils/frontier.h"
#include <list>
using namespace vf;
using namespace Planner;

namespace {
	struct Item {
		int key; // identity
		double prio;
		int serial; // which insertion produced it
	};
	struct ByPrio { bool operator()(const Item& a, const Item& b) const { return a.prio > b.prio; } };
	struct ByPrioLess { bool operator()(const Item& a, const Item& b) const { return a.prio < b.prio; } };
	struct HashItem { size_t operator()(const Item& a) const { return std::hash<int>()(a.key % 7); } }; // many collisions
	struct EqItem { bool operator()(const Item& a, const Item& b) const { return a.key == b.key; } };

	template <typename Cmp>
	void Run(Ctx& c, Cmp cmp)
	{
		Rng& r = c.rng;
		using F = Frontier<Item, Cmp, HashItem, EqItem>;
		std::unique_ptr<F> fp(r.P(0.3) ? new F(cmp, 8, HashItem(), EqItem()) : r.P(0.5) ? new F(cmp) : new F());
		F& f = *fp;
		std::vector<Item> model;
		int keys = r.I(1, 60), prios = r.I(1, 12), ops = r.I(5, 250), serial = 0;
		int bias = r.I(0, 2); // 0 balanced, 1 grow, 2 shrink
		c.desc << "keys=" << keys << " prios=" << prios << " ops=" << ops;
		c.Sig(keys * 100 + prios);
		auto find = [&](int key) { return std::find_if(model.begin(), model.end(), [&](auto& m) { return m.key == key; }); };
		size_t peak = 0;
		for (int i = 0; i < ops && !c.Failed(); ++i) {
			int op = r.I(0, 9);
			if (bias == 1 && op > 6) op = 0;
			if (bias == 2 && op < 2) op = 6;
			c.Sig(op);
			Item it { r.I(0, keys - 1), r.P(0.8) ? (double)r.I(0, prios) : r.U(0, prios), serial++ };
			if (op <= 4) {
				auto m = find(it.key);
				auto [p, ok] = f.Push(it);
				c.Check(ok == (m == model.end()), "push-unique", VF_MSG("push of key " << it.key << " returned " << ok << " while present=" << (m != model.end())));
				if (ok) model.push_back(it);
				const Item& want = *find(it.key);
				c.Check(p && p->key == want.key && p->serial == want.serial, "push-pointer", VF_MSG("push returned a pointer to another element"));
			} else if (op == 5) {
				auto m = find(it.key);
				size_t n = f.Remove(it); // equal by key, priority may differ
				c.Check(n == (m == model.end() ? 0u : 1u), "remove-count", VF_MSG("remove of key " << it.key << " returned " << n));
				if (m != model.end()) model.erase(m);
			} else if (op == 6 || op == 7) {
				if (!model.empty()) {
					Item top = f.Top();
					Item got = f.Pop();
					c.Check(top.serial == got.serial, "top-is-pop", VF_MSG("top and pop disagree"));
					auto m = find(got.key);
					c.Check(m != model.end() && m->serial == got.serial, "pop-member", VF_MSG("popped an element that is not in the list: key " << got.key));
					for (auto& e : model)
						c.Check(!cmp(got, e), "pop-order", VF_MSG("popped priority " << got.prio << " before " << e.prio));
					if (m != model.end()) model.erase(m);
				}
			} else if (op == 8) {
				auto m = find(it.key);
				const Item* p = f.Find(it);
				c.Check((p != nullptr) == (m != model.end()), "find", VF_MSG("find of key " << it.key << " is wrong"));
				if (p && m != model.end())
					c.Check(p->serial == m->serial, "find-element", VF_MSG("find returned another element"));
			} else if (r.P(0.03)) {
				f.Clear();
				model.clear();
			}
			peak = std::max(peak, model.size());
			c.Check(f.Size() == model.size() && f.Empty() == model.empty(), "size", VF_MSG("size " << f.Size() << " expected " << model.size()));
			// iteration: sorted, and exactly the members
			std::set<int> seen;
			const Item* prev = nullptr;
			for (auto& e : f) {
				seen.insert(e.serial);
				if (prev)
					c.Check(!cmp(e, *prev), "iteration-sorted", VF_MSG("elements out of order: " << prev->prio << " then " << e.prio));
				prev = &e;
			}
			bool same = seen.size() == model.size();
			for (auto& e : model) same = same && seen.count(e.serial);
			c.Check(same, "iteration-members", VF_MSG("the members iterated over are not the members inserted"));
		}
		// drain
		double last = 0;
		bool first = true;
		while (!f.Empty() && !c.Failed()) {
			Item e = f.Pop();
			if (!first) {
				Item l { 0, last, 0 };
				c.Check(!cmp(l, e), "drain-order", VF_MSG("drained " << e.prio << " after " << last));
			}
			first = false;
			last = e.prio;
			auto m = find(e.key);
			if (c.Check(m != model.end(), "drain-member", VF_MSG("drained a non-member")))
				model.erase(m);
		}
		c.Check(model.empty(), "drain-complete", VF_MSG(model.size() << " elements lost"));
		c.Max("size", (long)peak);
		if (peak >= 3)
			c.Nontrivial();
	}

	Register minFirst("smallest-on-top", 3, [](Ctx& c) { Run(c, ByPrio()); });
	Register maxFirst("largest-on-top", 2, [](Ctx& c) { Run(c, ByPrioLess()); });

	// Plain values: priority and identity coincide.
	Register ints("ints", 2, [](Ctx& c) {
		Rng& r = c.rng;
		Frontier<int> f;
		std::set<int> model;
		int ops = r.I(10, 300), range = r.I(2, 100);
		c.desc << "ops=" << ops << " range=" << range;
		for (int i = 0; i < ops && !c.Failed(); ++i) {
			int v = r.I(-range, range), op = r.I(0, 3);
			c.Sig(v * 4 + op);
			if (op < 2) {
				bool ok = f.Push(v).second;
				c.Check(ok == model.insert(v).second, "push-unique", VF_MSG("push " << v));
			} else if (op == 2) {
				c.Check(f.Remove(v) == model.erase(v), "remove-count", VF_MSG("remove " << v));
			} else if (!model.empty()) {
				c.Check(f.Pop() == *model.rbegin(), "pop-order", VF_MSG("pop did not return the largest"));
				model.erase(std::prev(model.end()));
			}
			c.Check(std::equal(f.begin(), f.end(), model.begin(), model.end()), "iteration-sorted", VF_MSG("contents differ from the model"));
			if (model.size() > 3) c.Nontrivial();
		}
	});

	// The decrease-key pattern the searches use: find, compare, remove, push.
	Register decreaseKey("decrease-key", 3, [](Ctx& c) {
		Rng& r = c.rng;
		struct N { int state; double total; };
		struct Cmp { bool operator()(N* a, N* b) const { return a->total > b->total; } };
		struct H { size_t operator()(N* a) const { return std::hash<int>()(a->state); } };
		struct E { bool operator()(N* a, N* b) const { return a->state == b->state; } };
		Frontier<N*, Cmp, H, E> f;
		std::list<N> store;
		std::map<int, double> model;
		int states = r.I(2, 80), ops = r.I(20, 400);
		c.desc << "states=" << states << " ops=" << ops;
		double floor = 0;
		for (int i = 0; i < ops && !c.Failed(); ++i) {
			if (r.P(0.75) || model.empty()) {
				int s = r.I(0, states - 1);
				double t = floor + (r.P(0.5) ? r.I(0, 5) : r.U(0, 5));
				c.Sig(s);
				store.push_back({ s, t });
				N* n = &store.back();
				N* const* in = f.Find(n);
				auto m = model.find(s);
				c.Check((in != nullptr) == (m != model.end()), "find", VF_MSG("membership of state " << s));
				if (!in) {
					c.Check(f.Push(n).second, "push-unique", VF_MSG("push refused"));
					model[s] = t;
				} else if ((*in)->total > t) {
					c.Check(f.Remove(*in) == 1, "remove-count", VF_MSG("remove failed"));
					c.Check(f.Push(n).second, "push-unique", VF_MSG("push refused after remove"));
					if (m != model.end()) m->second = t;
				}
			} else {
				N* n = f.Pop();
				double best = 1e300;
				for (auto& [k, v] : model) best = std::min(best, v);
				c.Check(n->total == best, "pop-order", VF_MSG("popped " << n->total << " while the smallest is " << best));
				c.Check(model.count(n->state) && model[n->state] == n->total, "pop-member", VF_MSG("popped stale element"));
				model.erase(n->state);
				floor = n->total;
			}
			c.Check(f.Size() == model.size(), "size", VF_MSG("size " << f.Size() << " expected " << model.size()));
			if (model.size() > 3) c.Nontrivial();
		}
	});

	// Thousands of elements at once: growth of the containers underneath.
	struct HashKey { size_t operator()(const Item& a) const { return std::hash<int>()(a.key); } };
	Register large("large", 0, [](Ctx& c) {
		Rng& r = c.rng;
		using F = Frontier<Item, ByPrio, HashKey, EqItem>;
		F f;
		std::unordered_map<int, Item> model;
		std::multiset<double> prios;
		int keys = r.I(500, 20000), levels = r.I(1, 2000), ops = r.I(2000, 30000), serial = 0;
		double grow = r.U(0.4, 0.9), remove = r.U(0, 0.3);
		c.desc << "keys=" << keys << " levels=" << levels << " ops=" << ops << " grow=" << grow;
		c.Sig(keys);
		auto drop = [&](int key) { prios.erase(prios.find(model.at(key).prio)); model.erase(key); };
		size_t peak = 0;
		for (int i = 0; i < ops && !c.Failed(); ++i) {
			Item it { r.I(0, keys - 1), r.P(0.8) ? (double)r.I(0, levels) : r.U(0, levels), serial++ };
			auto m = model.find(it.key);
			const Item* p = f.Find(it);
			c.Check((p != nullptr) == (m != model.end()) && (!p || p->serial == m->second.serial), "find", VF_MSG("find of key " << it.key << " is wrong among " << model.size()));
			if (r.P(grow)) {
				auto [q, ok] = f.Push(it);
				c.Check(ok == (m == model.end()), "push-unique", VF_MSG("push of key " << it.key << " returned " << ok));
				if (ok)
					model.emplace(it.key, it), prios.insert(it.prio);
				c.Check(q && q->key == it.key && q->serial == model.at(it.key).serial, "push-pointer", VF_MSG("push returned a pointer to another element"));
			} else if (r.P(remove)) {
				c.Check(f.Remove(it) == (m == model.end() ? 0u : 1u), "remove-count", VF_MSG("remove of key " << it.key));
				if (m != model.end())
					drop(it.key);
			} else if (!model.empty()) {
				Item top = f.Top(), got = f.Pop();
				c.Check(top.serial == got.serial, "top-is-pop", VF_MSG("top and pop disagree"));
				c.Check(got.prio == *prios.begin(), "pop-order", VF_MSG("popped priority " << got.prio << " before " << *prios.begin()));
				auto g = model.find(got.key);
				if (c.Check(g != model.end() && g->second.serial == got.serial, "pop-member", VF_MSG("popped an element that is not in the list")))
					drop(got.key);
			}
			peak = std::max(peak, model.size());
			c.Check(f.Size() == model.size() && f.Empty() == model.empty(), "size", VF_MSG("size " << f.Size() << " expected " << model.size()));
			if (i % 2500 == 0) {
				size_t n = 0;
				const Item* prev = nullptr;
				for (auto& e : f) {
					n += model.count(e.key) && model.at(e.key).serial == e.serial;
					if (prev)
						c.Check(e.prio <= prev->prio, "iteration-sorted", VF_MSG("elements out of order: " << prev->prio << " then " << e.prio));
					prev = &e;
				}
				c.Check(n == model.size(), "iteration-members", VF_MSG("the members iterated over are not the members inserted"));
			}
		}
		while (!f.Empty() && !model.empty() && !c.Failed()) {
			Item got = f.Pop();
			c.Check(got.prio == *prios.begin(), "drain-order", VF_MSG("drained " << got.prio << " before " << *prios.begin()));
			auto g = model.find(got.key);
			if (c.Check(g != model.end() && g->second.serial == got.serial, "drain-member", VF_MSG("drained a non-member")))
				drop(got.key);
		}
		c.Check(model.empty() && f.Empty(), "drain-complete", VF_MSG(model.size() << " elements lost"));
		c.Max("size", (long)peak);
		c.Nontrivial();
	});
}
