// C15: node hierarchy and exploration tree.
#include "common.h"
#include "geometry/2dplane.h"
#include "utils/tree.h"
using namespace vf;
using namespace Planner;

namespace {
	using N = Node<int>;

	// ---- plain node hierarchies against a parent-array model -------------------------
	struct Model {
		std::map<int, int> parent; // id -> parent id (-1 root)
		std::map<int, std::vector<int>> children;
		bool IsDesc(int a, int b) const { for (int p = parent.at(a); p >= 0; p = parent.at(p)) if (p == b) return true; return false; }
		int Depth(int a) const { int d = 0; for (int p = parent.at(a); p >= 0; p = parent.at(p)) d++; return d; }
	};

	void Verify(Ctx& c, const N* root, const Model& m, std::map<int, N*>& ptr)
	{
		size_t seen = 0;
		std::vector<int> pre, post;
		std::function<void(int)> walkPre = [&](int id) { pre.push_back(id); for (int k : m.children.at(id)) walkPre(k); };
		std::function<void(int)> walkPost = [&](int id) { for (int k : m.children.at(id)) walkPost(k); post.push_back(id); };
		walkPre(**root);
		walkPost(**root);
		std::vector<int> gotPre, gotPost;
		root->PreOrderTraversal([&](const N& n) { gotPre.push_back(*n); });
		root->PostOrderTraversal([&](const N& n) { gotPost.push_back(*n); });
		// sibling order is not promised: compare as sets, and check the order constraint
		auto sorted = [](std::vector<int> v) { std::sort(v.begin(), v.end()); return v; };
		c.Check(sorted(gotPre) == sorted(pre), "preorder-members", VF_MSG("pre-order visits " << gotPre.size() << " nodes, expected " << pre.size()));
		c.Check(sorted(gotPost) == sorted(post), "postorder-members", VF_MSG("post-order visits " << gotPost.size() << " nodes, expected " << post.size()));
		std::map<int, size_t> posPre, posPost;
		for (size_t i = 0; i < gotPre.size(); ++i) posPre[gotPre[i]] = i;
		for (size_t i = 0; i < gotPost.size(); ++i) posPost[gotPost[i]] = i;
		for (auto& [id, p] : m.parent) {
			if (!posPre.count(id)) continue;
			seen++;
			N* n = ptr[id];
			const N* par = n->GetParent();
			c.Check((par ? **par : -1) == p, "parent", VF_MSG("node " << id << " has parent " << (par ? **par : -1) << ", expected " << p));
			c.Check((int)n->GetDepth() == m.Depth(id), "depth", VF_MSG("node " << id << " depth " << n->GetDepth() << ", expected " << m.Depth(id)));
			if (p >= 0) {
				c.Check(posPre[p] < posPre[id] && posPost[p] > posPost[id], "traversal-order", VF_MSG("parent not visited before (after) its child"));
				int owners = 0;
				if (par)
					for (auto& k : par->GetChildren()) owners += k.get() == n;
				c.Check(owners == 1, "owned-by-parent", VF_MSG("node " << id << " is listed " << owners << " times by its parent"));
			}
			std::vector<int> kids;
			for (auto& k : n->GetChildren()) kids.push_back(**k);
			c.Check(sorted(kids) == sorted(m.children.at(id)), "children", VF_MSG("node " << id << " has the wrong children"));
			// sibling links agree with the children list
			for (size_t i = 0; i < n->GetChildren().size(); ++i) {
				const N* k = n->GetChildren()[i].get();
				const N* prev = i ? n->GetChildren()[i - 1].get() : nullptr;
				const N* next = i + 1 < n->GetChildren().size() ? n->GetChildren()[i + 1].get() : nullptr;
				c.Check(k->GetPrevious() == prev && k->GetNext() == next, "siblings", VF_MSG("sibling links of node " << **k));
			}
			c.Check(n->GetFirst() == (n->GetChildren().empty() ? nullptr : n->GetChildren()[0].get()), "first-child", VF_MSG("first child of " << id));
		}
		c.Check(seen == m.parent.size(), "all-reachable", VF_MSG(seen << " of " << m.parent.size() << " nodes reachable from the root"));
	}

	Register nodes("node-hierarchy", 4, [](Ctx& c) {
		Rng& r = c.rng;
		auto root = std::make_unique<N>(0);
		std::map<int, N*> ptr { { 0, root.get() } };
		Model m;
		m.parent[0] = -1;
		m.children[0];
		int next = 1, ops = r.I(5, 80);
		c.desc << "ops=" << ops;
		auto pick = [&]() { auto it = m.parent.begin(); std::advance(it, r.I(0, (int)m.parent.size() - 1)); return it->first; };
		auto detach = [&](int id) { int p = m.parent[id]; if (p >= 0) { auto& v = m.children[p]; v.erase(std::find(v.begin(), v.end(), id)); } };
		for (int i = 0; i < ops && !c.Failed(); ++i) {
			int op = r.I(0, 9);
			c.Sig(op);
			if (op < 4) {
				int p = pick(), id = next++;
				N* n = ptr[p]->AddChild(std::make_unique<N>(id));
				c.Check(n && **n == id, "add-returns-child", VF_MSG("add child returned another node"));
				ptr[id] = n;
				m.parent[id] = p;
				m.children[p].push_back(id);
				m.children[id];
			} else if (op < 7) {
				int ch = pick(), np = pick();
				c.Sig(ch * 1000 + np);
				if (ch == np) continue;
				c.Count(m.IsDesc(np, ch) ? "reparent-under-descendant" : "reparent-plain");
				N::Reparent(ptr[ch], ptr[np], root);
				// specification: if np was below ch it first takes ch's place under ch's old parent
				if (m.IsDesc(np, ch)) {
					int op0 = m.parent[ch];
					detach(np);
					m.parent[np] = op0;
					if (op0 >= 0) m.children[op0].push_back(np);
				}
				detach(ch);
				m.parent[ch] = np;
				m.children[np].push_back(ch);
			} else if (op == 7) {
				int id = pick();
				if (m.parent[id] < 0) continue;
				auto scope = ptr[m.parent[id]]->RemoveChild(ptr[id]);
				c.Check(scope.get() == ptr[id] && !scope->GetParent(), "remove-returns-child", VF_MSG("remove returned another node"));
				detach(id);
				std::vector<int> dead { id };
				for (size_t k = 0; k < dead.size(); ++k) for (int x : m.children[dead[k]]) dead.push_back(x);
				for (int d : dead) m.parent.erase(d), m.children.erase(d), ptr.erase(d);
			} else if (op == 8) {
				int id = pick();
				if (m.parent[id] < 0) continue;
				bool adopt = r.P(0.6);
				int nid = next++, extra = r.P(0.4) ? next++ : -1;
				int p = m.parent[id];
				auto neu = std::make_unique<N>(nid);
				N* np = neu.get();
				if (extra >= 0) ptr[extra] = neu->AddChild(std::make_unique<N>(extra));
				auto old = ptr[p]->ReplaceChild(ptr[id], std::move(neu), adopt);
				c.Check(old.get() == ptr[id] && !old->GetParent(), "replace-returns-brat", VF_MSG("replace returned another node"));
				detach(id);
				ptr[nid] = np;
				m.parent[nid] = p;
				m.children[p].push_back(nid);
				m.children[nid];
				if (extra >= 0) m.parent[extra] = nid, m.children[nid].push_back(extra), m.children[extra];
				if (adopt) {
					for (int k : m.children[id]) m.parent[k] = nid, m.children[nid].push_back(k);
					m.children[id].clear();
				}
				std::vector<int> dead { id };
				for (size_t k = 0; k < dead.size(); ++k) for (int x : m.children[dead[k]]) dead.push_back(x);
				for (int d : dead) m.parent.erase(d), m.children.erase(d), ptr.erase(d);
			} else {
				int a = pick(), b = pick();
				c.Check(ptr[a]->IsDescendantOf(ptr[b]) == m.IsDesc(a, b), "descendant", VF_MSG(a << " descendant of " << b));
				c.Check(ptr[a]->IsAncestorOf(ptr[b]) == m.IsDesc(b, a), "ancestor", VF_MSG(a << " ancestor of " << b));
			}
			Verify(c, root.get(), m, ptr);
		}
		if (m.parent.size() > 3) c.Nontrivial();
		c.Max("nodes", (long)m.parent.size());
	});

	// ---- exploration tree --------------------------------------------------------------
	template <typename State, unsigned int D, typename Gen, typename Dist2>
	void TreeCase(Ctx& c, Gen gen, Dist2 dist2, bool large = false)
	{
		Rng& r = c.rng;
		using T = Tree<State, D>;
		T tree;
		int rounds = large ? r.I(1, 2) : r.I(1, 3);
		for (int round = 0; round < rounds && !c.Failed(); ++round) {
			if (round) {
				tree.Clear();
				c.Check(tree.Size() == 0, "clear", VF_MSG("size " << tree.Size() << " after clear"));
			}
			std::vector<State> states;
			std::vector<typename T::Node*> nodes;
			std::map<typename T::Node*, typename T::Node*> parent;
			State s0 = gen(states);
			auto* root = tree.CreateRootNode(s0);
			states.push_back(s0);
			nodes.push_back(root);
			parent[root] = nullptr;
			int ops = large ? r.I(200, 3000) : r.I(1, 40);
			for (int i = 0; i < ops && !c.Failed(); ++i) {
				int op = r.I(0, 9);
				State q = gen(states);
				c.Sig(q[0]);
				if (op < 5) {
					bool dup = std::any_of(states.begin(), states.end(), [&](const State& s) { return dist2(s, q) == 0; });
					typename T::Node* src = r.P(0.5) ? nodes[r.I(0, (int)nodes.size() - 1)] : nullptr;
					auto* n = tree.Extend(q, src);
					if (!c.Check(n != nullptr && dist2((*n)->state, q) == 0, "extend-state", VF_MSG("extend returned a node with another state"))) return;
					if (dup) {
						c.Check(std::find(nodes.begin(), nodes.end(), n) != nodes.end(), "extend-duplicate", VF_MSG("a state already in the tree was added twice"));
						c.Count("duplicate-extend");
					} else {
						auto* p = n->GetParent();
						if (src)
							c.Check(p == src, "extend-parent", VF_MSG("new node not attached to the requested parent"));
						else {
							double best = 1e300;
							for (auto& s : states) best = std::min(best, dist2(s, q));
							c.Check(p && dist2((*p)->state, q) <= best * (1 + 1e-12), "extend-nearest", VF_MSG("attached at squared distance " << (p ? dist2((*p)->state, q) : -1.0) << ", nearest is " << best));
						}
						parent[n] = p;
						states.push_back(q);
						nodes.push_back(n);
					}
				} else if (op < 7) {
					auto* n = tree.GetNearestNode(q);
					double best = 1e300;
					for (auto& s : states) best = std::min(best, dist2(s, q));
					if (!c.Check(n && std::find(nodes.begin(), nodes.end(), n) != nodes.end(), "nearest-member", VF_MSG("nearest node is not a node of the tree"))) return;
					c.Check(dist2((*n)->state, q) <= best * (1 + 1e-12), "nearest", VF_MSG("nearest at squared distance " << dist2((*n)->state, q) << ", true nearest " << best));
				} else if (op < 9) {
					unsigned k = large && r.P(0.2) ? r.I(0, 200) : r.I(0, 12);
					auto v = tree.GetNearestNodes(q, k);
					if (!c.Check(v.size() == std::min<size_t>(k, states.size()), "knn-count", VF_MSG(v.size() << " neighbours returned for k=" << k << " in a tree of " << states.size()))) return;
					std::vector<double> d;
					for (auto& s : states) d.push_back(dist2(s, q));
					std::sort(d.begin(), d.end());
					std::vector<double> got;
					std::set<void*> uniq;
					for (auto* n : v) {
						if (!c.Check(n && std::find(nodes.begin(), nodes.end(), n) != nodes.end(), "knn-member", VF_MSG("neighbour is not a node of the tree"))) return;
						got.push_back(dist2((*n)->state, q));
						uniq.insert(n);
					}
					c.Check(uniq.size() == v.size(), "knn-distinct", VF_MSG("the same neighbour twice"));
					std::sort(got.begin(), got.end());
					for (size_t j = 0; j < got.size(); ++j)
						c.Check(std::fabs(got[j] - d[j]) <= 1e-12 * (1 + d[j]), "knn-exact", VF_MSG(j << "th neighbour at squared distance " << got[j] << ", expected " << d[j]));
				} else if (nodes.size() > 1) {
					auto* ch = nodes[r.I(0, (int)nodes.size() - 1)];
					auto* np = nodes[r.I(0, (int)nodes.size() - 1)];
					if (ch == np) continue;
					bool desc = false;
					for (auto* p = parent[np]; p; p = parent[p]) desc |= p == ch;
					tree.Reparent(ch, np);
					if (desc) parent[np] = parent[ch];
					parent[ch] = np;
					c.Count("tree-reparent");
				}
				c.Check(tree.Size() == nodes.size(), "tree-size", VF_MSG("size " << tree.Size() << ", expected " << nodes.size()));
				if (large && i % 100 && i + 1 < ops)
					continue;
				for (auto* n : nodes) {
					c.Check(tree.BelongToTree(n), "belongs", VF_MSG("a node of the tree is not reachable from its root"));
					c.Check(n->GetParent() == parent[n], "tree-parent", VF_MSG("unexpected parent"));
				}
			}
			if (nodes.size() > 4) c.Nontrivial();
			c.Max("tree-nodes", (long)nodes.size());
		}
	}

	void TreeR2(Ctx& c, bool large)
	{
		double range = c.rng.Pick({ 1, 10, 1000 });
		bool lattice = c.rng.P(0.4);
		int span = large ? c.rng.I(4, 40) : 4;
		c.desc << "range=" << range << " lattice=" << lattice;
		TreeCase<Point2d, 2>(
			c, [&](const std::vector<Point2d>& known) -> Point2d {
				if (!known.empty() && c.rng.P(0.12)) return known[c.rng.I(0, (int)known.size() - 1)];
				if (lattice) return Point2d(c.rng.I(-span, span), c.rng.I(-span, span));
				return Point2d(c.rng.U(-range, range), c.rng.U(-range, range)); },
			[](const Point2d& a, const Point2d& b) { double x = a[0] - b[0], y = a[1] - b[1]; return x * x + y * y; },
			large);
	}
	Register tree2("tree-r2", 4, [](Ctx& c) { TreeR2(c, false); });
	Register treeLarge("tree-large", 0, [](Ctx& c) { TreeR2(c, true); });

	// Long chains of nodes, with side branches: built, walked, cut, rearranged and deleted.
	Register deep("deep", 0, [](Ctx& c) {
		Rng& r = c.rng;
		int n = r.P(0.4) ? r.I(300000, 500000) : r.I(2000, 60000);
		double branch = r.U(0, 0.3);
		auto root = std::make_unique<N>(0);
		std::vector<N*> chain { root.get() };
		size_t total = 1;
		for (int i = 1; i < n; ++i) {
			if (r.P(branch))
				chain.back()->AddChild(std::make_unique<N>(-1)), total++;
			chain.push_back(chain.back()->AddChild(std::make_unique<N>(i)));
			total++;
		}
		c.desc << "chain of " << n << ", " << total << " nodes";
		c.Sig(n);
		auto walk = [&](const N* from, size_t expect, int first, int last, const char* what) {
			size_t pre = 0, post = 0;
			int lastPre = first - 1, lastPost = last + 1;
			bool okPre = true, okPost = true;
			from->PreOrderTraversal([&](const N& x) { pre++; if (*x >= 0) okPre &= *x == lastPre + 1, lastPre = *x; });
			from->PostOrderTraversal([&](const N& x) { post++; if (*x >= 0) okPost &= *x == lastPost - 1, lastPost = *x; });
			c.Check(pre == expect && post == expect, pre == expect ? "postorder-members" : "preorder-members", VF_MSG(what << ": visited " << pre << " and " << post << " of " << expect));
			c.Check(okPre && okPost && lastPre == last && lastPost == first, "traversal-order", VF_MSG(what << ": parent not visited before (after) its child"));
		};
		walk(root.get(), total, 0, n - 1, "whole");
		c.Check((int)chain.back()->GetDepth() == n - 1, "depth", VF_MSG("depth " << chain.back()->GetDepth() << " of " << n - 1));
		c.Check(chain.back()->IsDescendantOf(root.get()) && root->IsAncestorOf(chain.back()) && !root->IsDescendantOf(chain.back()), "descendant", VF_MSG("ends of the chain"));
		int cut = r.I(1, n - 1);
		auto part = chain[cut - 1]->RemoveChild(chain[cut]);
		c.Check(part.get() == chain[cut] && !chain[cut]->GetParent() && (int)chain.back()->GetDepth() == n - 1 - cut, "depth", VF_MSG("the part cut off at " << cut));
		size_t below = 0;
		part->PreOrderTraversal([&](const N&) { below++; });
		if (r.P(0.5)) {
			part.reset();
			walk(root.get(), total - below, 0, cut - 1, "rest");
		} else if (r.P(0.5)) {
			chain[cut - 1]->AddChild(std::move(part));
			walk(root.get(), total, 0, n - 1, "joined again");
			N::Reparent(root.get(), chain.back(), root);
			c.Check(root.get() == chain.back() && (int)chain.front()->GetDepth() == 1 && !root->GetParent(), "parent", VF_MSG("the last node did not become the root"));
		}
		c.Max("deepest-node", n);
		c.Nontrivial();
	});
}
