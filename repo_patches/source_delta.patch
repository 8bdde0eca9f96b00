From 0db761751b93f773d0e51d565ead7eb1b68a4d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:03 +0000
Subject: [PATCH 01/53] fix: tree-search A* keeps the cheaper of two frontier
 nodes with the same state

The frontier refuses a second node with an equal state, so a cheaper path
to a state already waiting in the frontier was silently dropped.
---
 planner/src/algo/a_star.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 9cbd016..aeaf70c 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -400,6 +400,10 @@ namespace Planner {
 						// current path, and if so replace it by child
 						ProcessPossibleShortcut(*inFrontier, std::move(childScope), node);
 					}
+				} else if (Node* const* inFrontier = m_frontier.Find(child)) {
+					// The frontier holds each state only once: keep the cheapest
+					// of the two nodes
+					ProcessPossibleShortcut(*inFrontier, std::move(childScope), node);
 				} else {
 					// Add child to frontier and to the tree
 					m_frontier.Push(child);
-- 
2.43.0


From 02bfdc95c97323ce165529d09a0280061a301554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:18 +0000
Subject: [PATCH 02/53] fix: do not repeat the meeting state in the
 bidirectional A* path

---
 planner/src/algo/bidirectional_a_star.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 8de8e8e..64b5d88 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -67,6 +67,9 @@ namespace Planner {
 		{
 			auto fPath = m_fSearch.GetPath();
 			auto rPath = m_rSearch.GetPath();
+			// Both paths contain the state where the searches meet
+			if (!fPath.empty() && !rPath.empty())
+				rPath.pop_back();
 			fPath.insert(fPath.end(), rPath.rbegin(), rPath.rend());
 			return fPath;
 		}
-- 
2.43.0


From 68c67c2bc8081230eecaf9ed05206979f779ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:17 +0000
Subject: [PATCH 03/53] fix: bidirectional A* could return a suboptimal path

Candidate paths were only looked for among the states already expanded by
the other search, and the stopping criterion compared path costs instead of
the priorities of the two frontiers, so the search could stop before the
optimal meeting point was seen.
---
 planner/src/algo/bidirectional_a_star.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 64b5d88..2787217 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -169,8 +169,8 @@ namespace Planner {
 					if (m_fSearch.m_frontier.Empty() || m_rSearch.m_frontier.Empty())
 						return Status::Success;
 
-					double fTopCost = (*m_fSearch.m_frontier.Top())->pathCost;
-					double rTopCost = (*m_rSearch.m_frontier.Top())->pathCost;
+					double fTopCost = (*m_fSearch.m_frontier.Top())->totalCost;
+					double rTopCost = (*m_rSearch.m_frontier.Top())->totalCost;
 
 					// Check the stopping criterion
 					if (fTopCost + rTopCost >= bestCost + costOffset)
@@ -183,10 +183,16 @@ namespace Planner {
 	protected:
 		void FindIntersection(AStarNode<State, Action>* nodeA, UnidirectionalAStar& searchA, UnidirectionalAStar& searchB, double& bestPathCost)
 		{
+			// The state may have been reached by the other search without having
+			// been expanded yet
+			AStarNode<State, Action>* nodeB = nullptr;
 			auto it = searchB.m_explored.find((*nodeA)->state);
-			if (it != searchB.m_explored.end()) {
-				auto nodeB = it->second;
+			if (it != searchB.m_explored.end())
+				nodeB = it->second;
+			else if (auto inFrontier = searchB.m_frontier.Find(nodeA))
+				nodeB = *inFrontier;
 
+			if (nodeB) {
 				// Check the path of the new candidate path
 				double candidatePathCost = (*nodeA)->pathCost + (*nodeB)->pathCost;
 				if (candidatePathCost < bestPathCost) {
-- 
2.43.0


From 4a379f91e7999a3929d71c78f50ca8f9857db1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:45 +0000
Subject: [PATCH 04/53] fix: give the heuristics of an averaged pair the
 endpoints of the search

The inner heuristics kept their default goal, so the pair was neither goal
directed nor admissible.
---
 planner/src/algo/a_star.h               | 2 ++
 planner/src/algo/bidirectional_a_star.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index aeaf70c..2597d11 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -31,6 +31,8 @@ namespace Planner {
 	class AStarHeuristic {
 		template <typename S>
 		friend class AStarCombinedHeuristic;
+		template <typename S>
+		friend class AverageHeuristic;
 		template <typename S1, typename S2, typename Func>
 		friend class AStarHeuristicAdapter;
 		template <typename S, typename A, typename HashState, typename EqualState, bool GraphSearch, typename ExploredContainer>
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 2787217..2c95aa6 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -29,6 +29,8 @@ namespace Planner {
 		{
 			m_init = init;
 			this->m_goal = goal;
+			m_toGoalHeuristic->SetGoal(goal);
+			m_toInitHeuristic->SetGoal(init);
 			m_constant = m_toInitHeuristic->GetHeuristicValue(goal) / 2.0;
 		}
 
-- 
2.43.0


From 94284070ef4e32780da6f90ce0c5bdba757a8db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:02 +0000
Subject: [PATCH 05/53] fix: Node::ReplaceChild deleted the children of the
 replacing node

---
 planner/src/utils/node.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/utils/node.h b/planner/src/utils/node.h
index 5d77e09..6239954 100644
--- a/planner/src/utils/node.h
+++ b/planner/src/utils/node.h
@@ -178,8 +178,9 @@ namespace Planner {
 					if (adoptGrandchildren) {
 						for (auto& child : bratScope->m_children) {
 							child->m_parent = changeling.get();
+							changeling->m_children.push_back(std::move(child));
 						}
-						changeling->m_children = std::move(bratScope->m_children);
+						bratScope->m_children.clear();
 					}
 					changeling->m_parent = this;
 					*it = std::move(changeling);
-- 
2.43.0


From 42b12bf29d4620600808d907f310a9c10fad1cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 06/53] fix: RRT and RRT* exceeded their iteration and tree
 size limits by one

---
 planner/src/algo/rrt.h      | 4 ++--
 planner/src/algo/rrt_star.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/rrt.h b/planner/src/algo/rrt.h
index 52206a7..bf0fbf1 100644
--- a/planner/src/algo/rrt.h
+++ b/planner/src/algo/rrt.h
@@ -61,10 +61,10 @@ namespace Planner {
 			int count = -1;
 			while (true) {
 				count++;
-				if (count > m_parameters.maxIteration) {
+				if (count >= m_parameters.maxIteration) {
 					return Status::Failure;
 				}
-				if (m_tree.Size() > m_parameters.maxNumberTreeNode) {
+				if (m_tree.Size() >= m_parameters.maxNumberTreeNode) {
 					return Status::Failure;
 				}
 
diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 8b21024..35c706f 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -59,10 +59,10 @@ namespace Planner {
 			int count = -1;
 			while (true) {
 				count++;
-				if (count > m_parameters.maxIteration) {
+				if (count >= m_parameters.maxIteration) {
 					return Status::Failure;
 				}
-				if (m_tree.Size() > m_parameters.maxNumberTreeNode) {
+				if (m_tree.Size() >= m_parameters.maxNumberTreeNode) {
 					return Status::Failure;
 				}
 
-- 
2.43.0


From 5e075bbb56c9193853f3587ddc1d7e099d06d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:32 +0000
Subject: [PATCH 07/53] fix: RRT* connected nodes further apart than
 maxConnectionDistance

---
 planner/src/algo/rrt_star.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 35c706f..5c3f037 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -80,7 +80,6 @@ namespace Planner {
 
 				// Find the best parent for newNode amongst k nearest neighbors of
 				// the new state where k is logarithmic in the size of the tree
-				// FIXME need to use radius search to make sure that the connection length is always less than maxConnectionDistance
 				unsigned int nn = std::max<unsigned int>(1, log(m_tree.Size()));
 				std::vector<TreeNode*> nearNodes = m_tree.GetNearestNodes(newState, nn);
 				TreeNode* bestParentNode = nullptr;
@@ -88,6 +87,9 @@ namespace Planner {
 				Ref<Path<Vertex>> bestPath;
 				for (const auto node : nearNodes) {
 					auto [pathParentToNew, transitionCost] = SteerExactly((*node)->state, newState);
+					// The connection length must not exceed maxConnectionDistance
+					if (node != nearestNode && transitionCost > m_parameters.maxConnectionDistance)
+						continue;
 					double cost = (*node)->info.costFromGoal + transitionCost;
 					if (cost < bestCost && m_stateValidator->IsPathValid(*pathParentToNew)) {
 						bestParentNode = node;
-- 
2.43.0


From d93d8222e318cec82a748d54b17bd85459fb91b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:15 +0000
Subject: [PATCH 08/53] fix: multi-sample overloads of StateSpace wrote outside
 an empty vector

SampleUniform(n) assigned past the end of an empty vector and returned it
empty; SampleGaussian(mean, stdDev, n) did not compile.
---
 planner/src/state_space/state_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_space/state_space.h b/planner/src/state_space/state_space.h
index cbd0a2e..b64b2d4 100644
--- a/planner/src/state_space/state_space.h
+++ b/planner/src/state_space/state_space.h
@@ -38,7 +38,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleUniform();
+				states.push_back(SampleUniform());
 			}
 			return states;
 		}
@@ -51,7 +51,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleGuassian(meanState, stdDev);
+				states.push_back(SampleGaussian(meanState, stdDev));
 			}
 			return states;
 		}
-- 
2.43.0


From f0a87bae2b475b16f7472b9a1a83d78753ecfabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 09/53] fix: StateValidator::IsPathValid(path, State*) did not
 compile

---
 planner/src/state_validator/state_validator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_validator/state_validator.h b/planner/src/state_validator/state_validator.h
index f25bcf4..6433001 100644
--- a/planner/src/state_validator/state_validator.h
+++ b/planner/src/state_validator/state_validator.h
@@ -30,7 +30,7 @@ namespace Planner {
 		bool IsPathValid(const Path<State>& path, State* last)
 		{
 			float ratio;
-			bool validated = IsPathValid(path, ratio);
+			bool validated = IsPathValid(path, &ratio);
 			if (last)
 				*last = path.Interpolate(ratio);
 			return validated;
-- 
2.43.0


From a0611acba9d9ef737d8da52afab27351385316c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:26 +0000
Subject: [PATCH 10/53] fix: Reeds-Shepp cost ignored the forward multiplier
 when the reverse one was 1

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 79d532a..ddf9491 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -468,7 +468,7 @@ namespace Planner {
 			if (!m_motions[0].IsValid())
 				return std::numeric_limits<float>::infinity();
 
-			if (reverseCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
+			if (reverseCostMultiplier == 1.0f && forwardCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
 				return m_length * minTurningRadius;
 
 			float cost = 0;
-- 
2.43.0


From cf6904bedbeebbe17d1b8805ca452e1c5622366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:55 +0000
Subject: [PATCH 11/53] fix: Reeds-Shepp shortest distance was not scaled by
 the turning radius

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index ddf9491..31d6890 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -633,7 +633,7 @@ namespace Planner {
 			if (out)
 				*out = { t, u, v };
 
-			return smallestLength;
+			return smallestLength * minTurningRadius;
 		}
 
 		PathSegment Solver::GetShortestPath(const Pose2d& start, const Pose2d& goal, double minTurningRadius, PathWords* word)
-- 
2.43.0


From 77fdfada4e20838b2ff2b28b427cd1bb73254d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:52 +0000
Subject: [PATCH 12/53] fix: rounding made Reeds-Shepp discard words with
 zero-length or half turns

---
 planner/src/geometry/reeds_shepp.cpp | 72 +++++++++++++++++-----------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 31d6890..3f95fbf 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -13,9 +13,25 @@ namespace Planner {
 				return theta < 0 || theta > M_PI;
 			}
 
+			// Angles this close to the end of their interval only differ from it
+			// by rounding errors: without it, zero-length turns become full turns
+			// or are discarded.
+			static constexpr double s_angleTolerance = 1e-10;
+
 			static double WrapAngle(double theta)
 			{
-				return Maths::Modulo(theta + M_PI, 2 * M_PI) - M_PI;
+				theta = Maths::Modulo(theta + M_PI, 2 * M_PI) - M_PI;
+				if (std::abs(theta) < s_angleTolerance)
+					return 0.0;
+				if (std::abs(theta) > M_PI - s_angleTolerance)
+					return M_PI;
+				return theta;
+			}
+
+			static double ModuloAngle(double theta)
+			{
+				theta = Maths::Modulo(theta, 2 * M_PI);
+				return theta > 2 * M_PI - s_angleTolerance ? 0.0 : theta;
 			}
 
 			static double LfSfLf(const Pose2d& goal, double& t, double& u, double& v)
@@ -25,7 +41,7 @@ namespace Planner {
 				double y = goal.y() - 1 + cos(goal.theta);
 
 				u = sqrt(x * x + y * y);
-				t = atan2(y, x);
+				t = WrapAngle(atan2(y, x));
 				v = WrapAngle(goal.theta - t);
 
 				if (IsAngleInvalid(t) || IsAngleInvalid(v))
@@ -71,9 +87,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 				double alpha = acos(u1 / 4.0);
-				t = Maths::Modulo(M_PI_2 + alpha + phi, 2 * M_PI);
-				u = Maths::Modulo(M_PI - 2 * alpha, 2 * M_PI);
-				v = Maths::Modulo(goal.theta - t - u, 2 * M_PI);
+				t = ModuloAngle(M_PI_2 + alpha + phi);
+				u = ModuloAngle(M_PI - 2 * alpha);
+				v = ModuloAngle(goal.theta - t - u);
 
 				if (IsAngleInvalid(t) || IsAngleInvalid(u) || IsAngleInvalid(v))
 					return std::numeric_limits<double>::infinity();
@@ -95,9 +111,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 				double alpha = acos(u1 / 4.0);
-				t = Maths::Modulo(M_PI_2 + alpha + phi, 2 * M_PI);
-				u = Maths::Modulo(M_PI - 2 * alpha, 2 * M_PI);
-				v = Maths::Modulo(t + u - goal.theta, 2 * M_PI);
+				t = ModuloAngle(M_PI_2 + alpha + phi);
+				u = ModuloAngle(M_PI - 2 * alpha);
+				v = ModuloAngle(t + u - goal.theta);
 
 				return t + u + v;
 			}
@@ -118,8 +134,8 @@ namespace Planner {
 				u = acos((8 - u1 * u1) / 8.0);
 				double va = sin(u);
 				double alpha = asin(2 * va / u1);
-				t = Maths::Modulo(M_PI_2 - alpha + phi, 2 * M_PI);
-				v = Maths::Modulo(t - u - goal.theta, 2 * M_PI);
+				t = ModuloAngle(M_PI_2 - alpha + phi);
+				v = ModuloAngle(t - u - goal.theta);
 
 				return t + u + v;
 			}
@@ -140,14 +156,14 @@ namespace Planner {
 
 				if (u1 > 2) {
 					double alpha = acos(u1 / 4 - 0.5);
-					t = Maths::Modulo(M_PI_2 + phi - alpha, 2 * M_PI);
-					u = Maths::Modulo(M_PI - alpha, 2 * M_PI);
-					v = Maths::Modulo(goal.theta - t + 2 * u, 2 * M_PI);
+					t = ModuloAngle(M_PI_2 + phi - alpha);
+					u = ModuloAngle(M_PI - alpha);
+					v = ModuloAngle(goal.theta - t + 2 * u);
 				} else {
 					double alpha = acos(u1 / 4 + 0.5);
-					t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-					u = Maths::Modulo(alpha, 2 * M_PI);
-					v = Maths::Modulo(goal.theta - t + 2 * u, 2 * M_PI);
+					t = ModuloAngle(M_PI_2 + phi + alpha);
+					u = ModuloAngle(alpha);
+					v = ModuloAngle(goal.theta - t + 2 * u);
 				}
 
 				return t + u + u + v;
@@ -173,8 +189,8 @@ namespace Planner {
 				u = acos(va1);
 				double va2 = sin(u);
 				double alpha = asin(2 * va2 / u1);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t - goal.theta, 2 * M_PI);
+				t = ModuloAngle(M_PI_2 + phi + alpha);
+				v = ModuloAngle(t - goal.theta);
 
 				return t + u + u + v;
 			}
@@ -198,8 +214,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(2, u + 2);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t + M_PI_2 - goal.theta, 2 * M_PI);
+				t = ModuloAngle(M_PI_2 + phi + alpha);
+				v = ModuloAngle(t + M_PI_2 - goal.theta);
 
 				return t + M_PI_2 + u + v;
 			}
@@ -218,9 +234,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 
-				t = Maths::Modulo(M_PI_2 + phi, 2 * M_PI);
+				t = ModuloAngle(M_PI_2 + phi);
 				u = u1 - 2;
-				v = Maths::Modulo(goal.theta - t - M_PI_2, 2 * M_PI);
+				v = ModuloAngle(goal.theta - t - M_PI_2);
 
 				return t + M_PI_2 + u + v;
 			}
@@ -244,8 +260,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(u + 2, 2);
-				t = Maths::Modulo(M_PI_2 + phi - alpha, 2 * M_PI);
-				v = Maths::Modulo(t - M_PI_2 - goal.theta, 2 * M_PI);
+				t = ModuloAngle(M_PI_2 + phi - alpha);
+				v = ModuloAngle(t - M_PI_2 - goal.theta);
 
 				return t + u + M_PI_2 + v;
 			}
@@ -264,9 +280,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 
-				t = Maths::Modulo(phi, 2 * M_PI);
+				t = ModuloAngle(phi);
 				u = u1 - 2;
-				v = Maths::Modulo(-t - M_PI_2 + goal.theta, 2 * M_PI);
+				v = ModuloAngle(-t - M_PI_2 + goal.theta);
 
 				return t + u + M_PI_2 + v;
 			}
@@ -290,8 +306,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(2, u + 4);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t - goal.theta, 2 * M_PI);
+				t = ModuloAngle(M_PI_2 + phi + alpha);
+				v = ModuloAngle(t - goal.theta);
 
 				return t + u + v + M_PI;
 			}
-- 
2.43.0


From ee8e3fc5f6cae455738ec3da6f8b3761da878e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:59 +0000
Subject: [PATCH 13/53] fix: truncating a Reeds-Shepp path erased the truncated
 motion

---
 planner/src/paths/path_reeds_shepp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index 1cc32f8..a7d8fc5 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -81,7 +81,7 @@ namespace Planner {
 				if (length >= ratio * totalLength) {
 					m_pathSegment.m_motions[i].length *= motionRatio;
 					for (int ii = i + 1; ii < ReedsShepp::PathSegment::numMotion; ii++) {
-						m_pathSegment.m_motions[i] = ReedsShepp::Motion();
+						m_pathSegment.m_motions[ii] = ReedsShepp::Motion();
 					}
 					break;
 				}
@@ -91,6 +91,7 @@ namespace Planner {
 
 		// Update the path length
 		m_length *= ratio;
+		m_pathSegment.m_length *= ratio;
 	}
 
 	std::set<double> PathReedsShepp::GetCuspPointRatios() const
-- 
2.43.0


From 2e1442ca4c525dda7dce54be1aa06749bf19baad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:30 +0000
Subject: [PATCH 14/53] fix: direction at the end of a Reeds-Shepp path and at
 zero-length motions

---
 planner/src/paths/path_reeds_shepp.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index a7d8fc5..94adb5c 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -101,18 +101,21 @@ namespace Planner {
 		if (m_length == 0.0)
 			return ratios;
 
-		double length = m_pathSegment.m_motions[0].length * m_minTurningRadius;
-		for (int i = 1; i < m_pathSegment.GetNumMotions(); i++) {
+		double length = 0.0;
+		Direction prevDirection = Direction::NoMotion;
+		for (int i = 0; i < m_pathSegment.GetNumMotions(); i++) {
 			const auto& currMotion = m_pathSegment.m_motions[i];
-			const auto& prevMotion = m_pathSegment.m_motions[i - 1];
+			if (currMotion.length == 0)
+				continue;
 			double ratio = length / m_length;
 			// Check ratio is smaller than 1.0 in case the path has been truncated
 			if (ratio > 1.0)
 				break;
 			// Check if the direction has changed
-			if (currMotion.direction != prevMotion.direction) {
+			if (prevDirection != Direction::NoMotion && currMotion.direction != prevDirection) {
 				ratios.insert(ratio);
 			}
+			prevDirection = currMotion.direction;
 			length += currMotion.length * m_minTurningRadius;
 		}
 
@@ -157,14 +160,18 @@ namespace Planner {
 			return Direction::NoMotion;
 
 		double length = 0;
+		Direction direction = Direction::NoMotion;
 		for (const auto& motion : m_pathSegment.m_motions) {
 			if (!motion.IsValid())
 				break;
+			if (motion.length == 0)
+				continue;
+			direction = motion.direction;
 			length += motion.length * m_minTurningRadius;
 			if (ratio * m_length <= length)
-				return motion.direction;
+				break;
 		}
-		return Direction::NoMotion;
+		return direction;
 	}
 
 	double PathReedsShepp::ComputeCost(double directionSwitchingCost, double reverseCostMultiplier, double forwardCostMultiplier) const
-- 
2.43.0


From e73b6f0c09b5ce1466ba7768fab5879e943f12a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:00 +0000
Subject: [PATCH 15/53] fix: composite path endpoints, cusps, direction and
 truncation

---
 planner/src/paths/path_composite.cpp | 20 +++++++++++++++-----
 planner/src/paths/path_composite.h   | 16 +++++++++-------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 59d3545..fa58ccf 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -9,18 +9,22 @@ namespace Planner {
 			return ratios;
 
 		double length = 0.0;
-		Direction prevDirection = m_paths[0].second->GetDirection(0.0);
+		Direction prevDirection = Direction::NoMotion;
 		for (auto& path : m_paths) {
+			const double pathLength = path.second->GetLength();
+			if (pathLength == 0.0)
+				continue;
+
 			// Check if the path starts with same direction as the previous ends
-			if (path.second->GetDirection(0.0) != prevDirection)
+			if (prevDirection != Direction::NoMotion && path.second->GetDirection(0.0) != prevDirection)
 				ratios.insert(length / this->m_length);
 
 			// Check for cusp point in the path
-			auto cusps = path.second->GetCuspPointRatios();
-			ratios.insert(cusps.begin(), cusps.end());
+			for (double cusp : path.second->GetCuspPointRatios())
+				ratios.insert((length + cusp * pathLength) / this->m_length);
 
 			prevDirection = path.second->GetDirection(1.0);
-			length += path.second->GetLength();
+			length += pathLength;
 		}
 
 		return ratios;
@@ -28,7 +32,13 @@ namespace Planner {
 
 	Direction PathSE2CompositeNonHolonomic::GetDirection(double ratio) const
 	{
+		if (m_paths.empty())
+			return Direction::NoMotion;
+
 		auto [it, pathRatio] = FindSegment(ratio);
+		// Empty segments at the end of the path have no direction
+		while (it != m_paths.begin() && it->second->GetLength() == 0.0)
+			it--;
 		return it->second->GetDirection(pathRatio);
 	}
 }
diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 82673ad..967aa47 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -34,6 +34,8 @@ namespace Planner {
 		void PushBack(const Ref<BasePath>& path)
 		{
 			double pathLength = path->GetLength();
+			if (m_paths.empty())
+				this->m_init = path->GetInitialState();
 			m_paths.push_back({ PathInfo(this->m_length, this->m_length + pathLength), path });
 			this->m_final = path->GetFinalState();
 			this->m_length += pathLength;
@@ -46,8 +48,6 @@ namespace Planner {
 				throw std::out_of_range("Empty path");
 
 			auto [it, pathRatio] = FindSegment(ratio);
-			if (it == m_paths.end())
-				it--;
 			return it->second->Interpolate(pathRatio);
 		}
 		using Path<State>::Interpolate;
@@ -58,16 +58,18 @@ namespace Planner {
 			if (m_paths.empty())
 				return;
 
-			auto [it, pathRatio] = FindSegment(ratio);
-			if (it == m_paths.end())
-				return;
+			auto [segment, pathRatio] = FindSegment(ratio);
+			auto it = m_paths.begin() + (segment - m_paths.cbegin());
 			it->second->Truncate(pathRatio);
 			this->m_final = it->second->GetFinalState();
 			this->m_length = it->first.initLength + it->second->GetLength();
+			it->first.finalLength = this->m_length;
 			m_paths.erase(std::next(it), m_paths.end());
 		}
 
 	protected:
+		/// @brief Return the segment at @ratio, and the ratio along this segment.
+		/// @details The path must not be empty.
 		std::tuple<typename Paths::const_iterator, double> FindSegment(double ratio) const
 		{
 			double length = ratio * this->m_length;
@@ -77,12 +79,12 @@ namespace Planner {
 				});
 
 			if (it == m_paths.end())
-				return { it, 1.0 };
+				return { std::prev(it), 1.0 };
 			double pathLength = it->second->GetLength();
 			if (pathLength == 0.0)
 				return { it, 0.0 };
 			double pathRatio = (length - it->first.initLength) / pathLength;
-			return { it, pathRatio };
+			return { it, std::clamp(pathRatio, 0.0, 1.0) };
 		}
 
 	protected:
-- 
2.43.0


From 06944202cc855488eed5925b7b8b7f4cd567f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:14 +0000
Subject: [PATCH 16/53] fix: Reeds-Shepp cost charged a direction switch for
 zero-length motions

---
 planner/src/geometry/reeds_shepp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 3f95fbf..c3aa816 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -489,17 +489,19 @@ namespace Planner {
 
 			float cost = 0;
 
-			Direction prevDirection = m_motions[0].direction;
+			Direction prevDirection = Direction::NoMotion;
 			for (const auto& motion : m_motions) {
 				if (!motion.IsValid())
 					break;
+				if (motion.length == 0)
+					continue;
 
 				float motionCost = motion.length * minTurningRadius;
 				if (motion.direction == Direction::Forward)
 					motionCost *= forwardCostMultiplier;
 				else if (motion.direction == Direction::Backward)
 					motionCost *= reverseCostMultiplier;
-				if (motion.direction != prevDirection)
+				if (prevDirection != Direction::NoMotion && motion.direction != prevDirection)
 					motionCost += directionSwitchingCost;
 
 				prevDirection = motion.direction;
-- 
2.43.0


From b6e7a8025e44832edb646e083adacd7d8d75a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:33 +0000
Subject: [PATCH 17/53] fix: moving an occupancy map after its size is set left
 the grid behind

---
 planner/src/state_validator/occupancy_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 336fa6b..f8571bb 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -37,7 +37,11 @@ namespace Planner {
 		virtual void Update();
 
 		/// @brief Set the position of the bottom left corner of the map.
-		void SetPosition(const Point2d& position) { m_localOrigin = position; }
+		void SetPosition(const Point2d& position)
+		{
+			m_localOrigin = position;
+			m_worldGridOrigin = m_localOrigin + m_localGridOrigin;
+		}
 		/// @brief Return the position of the bottom left corner of the map in
 		/// the world coordinates.
 		const Point2d& GetPosition() const { return m_localOrigin; }
@@ -125,7 +129,7 @@ namespace Planner {
 		// Position of the origin of the local frame in the world frame
 		Point2d m_localOrigin = { 0.0, 0.0 };
 		// Position of the origin of the grid frame in the local frame
-		Point2d m_localGridOrigin, m_worldGridOrigin;
+		Point2d m_localGridOrigin = { 0.0, 0.0 }, m_worldGridOrigin = { 0.0, 0.0 };
 		// Matrix of cell occupancy (positive or zero value means occupied)
 		Ref<Grid<int>> m_occupancyMatrix;
 		// Distance map to nearest obstacle
-- 
2.43.0


From cdb64639922e028ee3688d7420dce344bdbedd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:35 +0000
Subject: [PATCH 18/53] fix: path validation measured the distance to the wrong
 map border

---
 .../state_validator_occupancy_map.cpp                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index 69d0096..ef4b5f5 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -29,7 +29,10 @@ namespace Planner {
 	{
 		PP_PROFILE_FUNCTION();
 
+		// Limits of the map in the local frame
 		const auto& bounds = m_stateSpace->bounds;
+		const Point2d lb = bounds[0].position.cwiseMax(m_map->GridCellToLocalPosition(0, 0));
+		const Point2d ub = bounds[1].position.cwiseMin(m_map->GridCellToLocalPosition(m_map->Rows(), m_map->Columns()));
 		const double pathLength = path.GetLength();
 		if (pathLength == 0.0) {
 			if (last)
@@ -51,11 +54,12 @@ namespace Planner {
 			lastValidLength = length;
 
 			// Update length
+			const Point2d position = m_map->WorldPositionToLocalPosition(state.position);
 			float distToMapBorder = std::min({
-				state.x() - bounds[0].x(),
-				bounds[1].x() - state.x(),
-				state.y() - bounds[0].y(),
-				bounds[1].y() - state.y(),
+				position.x() - lb.x(),
+				ub.x() - position.x(),
+				position.y() - lb.y(),
+				ub.y() - position.y(),
 			});
 			// TODO add offset
 			GridCellPosition cell = m_map->WorldPositionToGridCell(state.position);
-- 
2.43.0


From 86146f9bda3a4d9931cf40578b0fd8d446f2b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:02 +0000
Subject: [PATCH 19/53] fix: path validation did not check the final state

---
 .../src/state_validator/state_validator_occupancy_map.cpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index ef4b5f5..46066a4 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -69,6 +69,13 @@ namespace Planner {
 			length += std::max(deltaLength, minPathInterpolationDistance);
 		}
 
+		// The last step stops before the end of the path
+		if (!IsStateValid(path.GetFinalState())) {
+			if (last)
+				*last = lastValidLength / pathLength;
+			return false;
+		}
+
 		if (last)
 			*last = 1.0f;
 		return true;
-- 
2.43.0


From a322b64a329d8e8de79dd66b026554998b927fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:58 +0000
Subject: [PATCH 20/53] fix: positions up to one cell outside the occupancy map
 were inside it

---
 planner/src/state_validator/occupancy_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index f8571bb..0e75fd3 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -4,6 +4,7 @@
 #include "state_validator/gvd.h"
 #include "geometry/2dplane.h"
 
+#include <cmath>
 #include <unordered_map>
 #include <set>
 
@@ -109,8 +110,8 @@ namespace Planner {
 
 		inline GridCellPosition GridPositionToGridCell(double x, double y, bool bounded) const
 		{
-			int row = static_cast<int>(x / resolution);
-			int col = static_cast<int>(y / resolution);
+			int row = static_cast<int>(std::floor(x / resolution));
+			int col = static_cast<int>(std::floor(y / resolution));
 
 			if (!bounded)
 				return GridCellPosition(row, col);
-- 
2.43.0


From e6fbe0c41964577a7d263132a059703b53e68c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:40 +0000
Subject: [PATCH 21/53] fix: removing an obstacle freed cells of other
 obstacles or left some behind

---
 .../obstacle_list_occupancy_map.cpp           | 28 ++++++++++++++++---
 .../obstacle_list_occupancy_map.h             | 10 ++++++-
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index 35b6b49..5d37067 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -3,6 +3,8 @@
 #include "state_validator/obstacle_list_occupancy_map.h"
 #include "state_validator/gvd.h"
 
+#include <unordered_set>
+
 namespace Planner {
 
 	ObstacleListOccupancyMap::ObstacleListOccupancyMap(float resolution) :
@@ -32,9 +34,11 @@ namespace Planner {
 			throw std::runtime_error("The size of the occupancy matrix has not been initialized");
 
 		auto id = FindSmallestIDAvailable(m_obstacleIDs);
-		if (m_obstacles.insert({ obstacle, id }).second) {
+		auto [it, inserted] = m_obstacles.insert({ obstacle, { id, {} } });
+		if (inserted) {
 			m_obstacleIDs.insert(id);
-			for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
+			it->second.cells = obstacle->GetBoundaryGridCellPosition(*this);
+			for (auto& cell : it->second.cells) {
 				(*m_occupancyMatrix)[cell.row][cell.col] = id;
 				m_obstacleDistanceMap->SetObstacle(cell);
 			}
@@ -51,9 +55,25 @@ namespace Planner {
 		auto it = m_obstacles.find(obstacle);
 		if (it == m_obstacles.end())
 			return false;
-		m_obstacleIDs.erase(it->second);
+		// Remove the cells that were covered when the obstacle was added: its
+		// shape or pose may have changed since then
+		const auto [id, cells] = std::move(it->second);
+		m_obstacleIDs.erase(id);
 		m_obstacles.erase(it);
-		for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
+
+		std::unordered_set<GridCellPosition> freed;
+		for (auto& cell : cells) {
+			if (IsInsideMap(cell) && (*m_occupancyMatrix)[cell.row][cell.col] == static_cast<int>(id))
+				freed.insert(cell);
+		}
+		// Cells also covered by another obstacle stay occupied
+		for (auto& [other, footprint] : m_obstacles) {
+			for (auto& cell : footprint.cells) {
+				if (freed.erase(cell))
+					(*m_occupancyMatrix)[cell.row][cell.col] = footprint.id;
+			}
+		}
+		for (auto& cell : freed) {
 			(*m_occupancyMatrix)[cell.row][cell.col] = -1;
 			m_obstacleDistanceMap->UnsetObstacle(cell);
 		}
diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.h b/planner/src/state_validator/obstacle_list_occupancy_map.h
index 22a4552..8a6fb64 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.h
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.h
@@ -3,6 +3,8 @@
 #include "core/base.h"
 #include "state_validator/occupancy_map.h"
 
+#include <vector>
+
 namespace Planner {
 	/// @brief 2D occupancy map from a list of obstacle.
 	/// @details The occupancy of the cell is defined by the presence of an
@@ -23,7 +25,13 @@ namespace Planner {
 		virtual bool IsOccupied(const GridCellPosition& cell) override;
 
 	private:
-		std::unordered_map<Ref<Obstacle>, unsigned int> m_obstacles;
+		/// @brief Cells covered by an obstacle when it was added to the map.
+		struct Footprint {
+			unsigned int id;
+			std::vector<GridCellPosition> cells;
+		};
+
+		std::unordered_map<Ref<Obstacle>, Footprint> m_obstacles;
 		std::set<unsigned int> m_obstacleIDs;
 	};
 }
-- 
2.43.0


From c6ab36ca672c54ee94ac6a19e68edb05d1e230f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:37 +0000
Subject: [PATCH 22/53] fix: cells cut off from the brush fire kept a removed
 obstacle as the nearest one

---
 planner/src/state_validator/gvd.cpp | 42 +++++++++++++++++++++++++++++
 planner/src/state_validator/gvd.h   | 12 +++++++++
 2 files changed, 54 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 31226ba..9b62e3a 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -31,6 +31,27 @@ namespace Planner {
 	{
 		PP_PROFILE_FUNCTION();
 
+		do {
+			Propagate();
+		} while (RaiseOrphans());
+	}
+
+	bool GVD::ObstacleDistanceMap::RaiseOrphans()
+	{
+		bool found = false;
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++) {
+				if (m_obstacle[r][c].IsValid() && !IsOccupied(m_obstacle[r][c])) {
+					UnsetObstacle({ r, c });
+					found = true;
+				}
+			}
+		}
+		return found;
+	}
+
+	void GVD::ObstacleDistanceMap::Propagate()
+	{
 		while (!m_open.empty()) {
 			const auto s = m_open.top().position;
 			m_open.pop();
@@ -201,6 +222,27 @@ namespace Planner {
 	{
 		PP_PROFILE_FUNCTION();
 
+		do {
+			Propagate();
+		} while (RaiseOrphans());
+	}
+
+	bool GVD::VoronoiDistanceMap::RaiseOrphans()
+	{
+		bool found = false;
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++) {
+				if (m_edge[r][c].IsValid() && !IsOccupied(m_edge[r][c])) {
+					UnsetEdge({ r, c });
+					found = true;
+				}
+			}
+		}
+		return found;
+	}
+
+	void GVD::VoronoiDistanceMap::Propagate()
+	{
 		while (!m_open.empty()) {
 			const auto s = m_open.top().position;
 			m_open.pop();
diff --git a/planner/src/state_validator/gvd.h b/planner/src/state_validator/gvd.h
index 64cec7a..c606ebd 100644
--- a/planner/src/state_validator/gvd.h
+++ b/planner/src/state_validator/gvd.h
@@ -41,6 +41,12 @@ namespace Planner {
 			Ref<VoronoiDistanceMap> GetVoronoiDistanceMap();
 
 		private:
+			/// @brief Propagate the changes of the map from cell to cell.
+			void Propagate();
+			/// @brief Find cells still referring to a removed obstacle: the
+			/// region of a cell is not always connected so that the propagation
+			/// may not reach all of it.
+			bool RaiseOrphans();
 			bool CheckVoroConditions(const GridCellPosition& s, const GridCellPosition& n, const GridCellPosition& obstS, const GridCellPosition& obstN);
 			void CheckVoro(const GridCellPosition& s, const GridCellPosition& n);
 			void RebuildVoronoi();
@@ -83,6 +89,12 @@ namespace Planner {
 			VoronoiDistanceMap(unsigned int rows, unsigned int columns, float resolution);
 
 		private:
+			/// @brief Propagate the changes of the map from cell to cell.
+			void Propagate();
+			/// @brief Find cells still referring to a removed edge: the
+			/// region of a cell is not always connected so that the propagation
+			/// may not reach all of it.
+			bool RaiseOrphans();
 			bool IsOccupied(const GridCellPosition& s);
 
 		public:
-- 
2.43.0


From 9a27bcdfc6e92db781f28f993b424ff9c3cf5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:41 +0000
Subject: [PATCH 23/53] fix: Voronoi edges were missing if the obstacle map was
 updated before the diagram is built

---
 planner/src/state_validator/gvd.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 9b62e3a..516ac83 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -115,6 +115,15 @@ namespace Planner {
 			return m_voronoiMap;
 
 		m_voronoiMap = makeRef<MakeRefEnabler<VoronoiDistanceMap>>(rows, columns, resolution);
+		// Find the edges between the obstacles which have already been processed
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++) {
+				if (m_obstacle[r][c].IsValid()) {
+					m_open.push({ { r, c }, m_distance[r][c] });
+					m_toProcess[r][c] = true;
+				}
+			}
+		}
 		return m_voronoiMap;
 	}
 
-- 
2.43.0


From 63a6cfcf077db9828be3abdf7edaba93a3c0d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:16 +0000
Subject: [PATCH 24/53] fix: Voronoi edges remained on a map without obstacles

---
 planner/src/state_validator/gvd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 516ac83..1e84905 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -58,6 +58,9 @@ namespace Planner {
 			if (!m_toProcess[s.row][s.col])
 				continue;
 			if (m_toRaise[s.row][s.col]) {
+				m_voro[s.row][s.col] = false;
+				if (m_voronoiMap)
+					m_voronoiMap->UnsetEdge(s);
 				for (auto& n : s.GetNeighbors(rows, columns)) {
 					if (m_obstacle[n.row][n.col].IsValid() && !m_toRaise[n.row][n.col]) {
 						if (!IsOccupied(m_obstacle[n.row][n.col])) {
-- 
2.43.0


From 28e5db600f4b1a625800831c90d6d0c578357761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:41 +0000
Subject: [PATCH 25/53] fix: Voronoi edges found while the distances were
 changing could remain

---
 planner/src/state_validator/gvd.cpp | 58 ++++++++++++++++++++---------
 planner/src/state_validator/gvd.h   |  4 ++
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 1e84905..735719f 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -34,6 +34,8 @@ namespace Planner {
 		do {
 			Propagate();
 		} while (RaiseOrphans());
+		if (m_voronoiMap)
+			ReviseEdges();
 	}
 
 	bool GVD::ObstacleDistanceMap::RaiseOrphans()
@@ -135,30 +137,52 @@ namespace Planner {
 		return (m_distance[s.row][s.col] > 1 || m_distance[n.row][n.col] > 1) && obstN.IsValid() && obstN != obstS && !obstS.IsAdjacentTo(obstN);
 	}
 
-	void GVD::ObstacleDistanceMap::CheckVoro(const GridCellPosition& s, const GridCellPosition& n)
+	bool GVD::ObstacleDistanceMap::IsOnEdge(const GridCellPosition& s, const GridCellPosition& n)
 	{
 		auto obstS = m_obstacle[s.row][s.col];
 		auto obstN = m_obstacle[n.row][n.col];
 
+		if (!obstS.IsValid() || !obstN.IsValid())
+			return false;
 		if ((*m_occupancy)[obstS.row][obstS.col] == (*m_occupancy)[obstN.row][obstN.col])
-			return;
+			return false;
+		if (m_distance[s.row][s.col] <= 1 && m_distance[n.row][n.col] <= 1)
+			return false;
+		if (std::abs(obstS.row - obstN.row) <= 1 && std::abs(obstS.col - obstN.col) <= 1)
+			return false;
+
+		auto sStability = SquaredDistance(s, obstN) - m_distance[s.row][s.col];
+		auto nStability = SquaredDistance(n, obstS) - m_distance[n.row][n.col];
+		return sStability >= 0 && nStability >= 0 && sStability <= nStability;
+	}
+
+	void GVD::ObstacleDistanceMap::CheckVoro(const GridCellPosition& s, const GridCellPosition& n)
+	{
+		if (IsOnEdge(s, n)) {
+			m_voro[s.row][s.col] = true;
+			m_voronoiMap->SetEdge(s);
+		}
+		if (IsOnEdge(n, s)) {
+			m_voro[n.row][n.col] = true;
+			m_voronoiMap->SetEdge(n);
+		}
+	}
 
-		if ((m_distance[s.row][s.col] > 1 || m_distance[n.row][n.col] > 1) && m_obstacle[n.row][n.col].IsValid()) {
-			if (std::abs(obstS.row - obstN.row) > 1 || std::abs(obstS.col - obstN.col) > 1) {
-				auto sObstN = SquaredDistance(s, obstN);
-				auto nObstS = SquaredDistance(n, obstS);
-				auto sStability = sObstN - m_distance[s.row][s.col];
-				auto nStability = nObstS - m_distance[n.row][n.col];
-				if (sStability < 0 || nStability < 0)
-					return;
-				if (sStability <= nStability) {
-					m_voro[s.row][s.col] = true;
+	void GVD::ObstacleDistanceMap::ReviseEdges()
+	{
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++) {
+				const GridCellPosition s(r, c);
+				bool onEdge = false;
+				for (auto& n : s.GetNeighbors(rows, columns))
+					onEdge = onEdge || IsOnEdge(s, n);
+				if (onEdge == m_voro[r][c])
+					continue;
+				m_voro[r][c] = onEdge;
+				if (onEdge)
 					m_voronoiMap->SetEdge(s);
-				}
-				if (nStability <= sStability) {
-					m_voro[n.row][n.col] = true;
-					m_voronoiMap->SetEdge(n);
-				}
+				else
+					m_voronoiMap->UnsetEdge(s);
 			}
 		}
 	}
diff --git a/planner/src/state_validator/gvd.h b/planner/src/state_validator/gvd.h
index c606ebd..8ceb645 100644
--- a/planner/src/state_validator/gvd.h
+++ b/planner/src/state_validator/gvd.h
@@ -48,6 +48,10 @@ namespace Planner {
 			/// may not reach all of it.
 			bool RaiseOrphans();
 			bool CheckVoroConditions(const GridCellPosition& s, const GridCellPosition& n, const GridCellPosition& obstS, const GridCellPosition& obstN);
+			/// @brief Check if @s is a Voronoi edge cell because of its neighbor @n.
+			bool IsOnEdge(const GridCellPosition& s, const GridCellPosition& n);
+			/// @brief Revise the edges found while the distances were changing.
+			void ReviseEdges();
 			void CheckVoro(const GridCellPosition& s, const GridCellPosition& n);
 			void RebuildVoronoi();
 			bool PatternMatch(const GridCellPosition& s);
-- 
2.43.0


From 4c1299c0d740c71fda1f76508a3093289b341d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:03 +0000
Subject: [PATCH 26/53] fix: non-holonomic heuristic read outside its table and
 from the wrong pose

---
 planner/src/algo/heuristics.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 76cbf29..f55e1eb 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -77,12 +77,15 @@ namespace Planner {
 
 	double NonHolonomicHeuristic::GetHeuristicValue(const Pose2d& state)
 	{
-		auto delta = m_goal - state;
+		// Values are the costs from a pose to the origin: express the state in
+		// the frame of the goal
+		auto delta = state - m_goal;
 
 		int i = (int)round((delta.x() + offsetX) / spatialResolution);
 		int j = (int)round((delta.y() + offsetY) / spatialResolution);
-		int k = (int)round(delta.theta / angularResolution);
-		if (k == numAngular)
+		double theta = delta.theta < 0.0 ? delta.theta + 2 * M_PI : delta.theta;
+		int k = (int)round(theta / angularResolution);
+		if (k >= numAngular)
 			k = 0;
 
 		if (i < 0 || i >= numSpatialX || j < 0 || j >= numSpatialY) {
-- 
2.43.0


From 8289186c39879ac1b828f6cd6aedfd727a4abb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:09 +0000
Subject: [PATCH 27/53] fix: obstacle heuristic never lowered the cost of a
 cell in the frontier

---
 planner/src/algo/heuristics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index f55e1eb..e62e32f 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -145,7 +145,7 @@ namespace Planner {
 				} else if (inFrontier) {
 					// Check if the node in frontier has a higher cost than the
 					// current path, and if so replace it by child
-					if (inFrontier->value > m_cost[n.row][n.col]) {
+					if (inFrontier->value > pathCost) {
 						frontier.Remove({ n, 0.0f });
 						frontier.Push({ n, pathCost });
 						m_cost[n.row][n.col] = pathCost;
-- 
2.43.0


From a089aad2ba115c57960d08078dac724557f32a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:56 +0000
Subject: [PATCH 28/53] fix: obstacle heuristic did not scale the straight line
 distance by the cost

---
 planner/src/algo/heuristics.cpp | 5 +++--
 planner/src/algo/heuristics.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index e62e32f..12cfdb4 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -99,7 +99,8 @@ namespace Planner {
 
 	ObstaclesHeuristic::ObstaclesHeuristic(const Ref<OccupancyMap>& map, double reverseCostMultiplier, double forwardCostMultiplier) :
 		diagonalResolution(std::sqrt(2) * map->resolution),
-		costMultiplier(std::min(reverseCostMultiplier, forwardCostMultiplier) * map->resolution),
+		distanceMultiplier(std::min(reverseCostMultiplier, forwardCostMultiplier)),
+		costMultiplier(distanceMultiplier * map->resolution),
 		m_map(map),
 		m_cost(map->Rows(), map->Columns(), std::numeric_limits<float>::infinity()),
 		m_explored(map->Rows(), map->Columns(), false)
@@ -157,7 +158,7 @@ namespace Planner {
 
 	double ObstaclesHeuristic::GetHeuristicValue(const Pose2d& state)
 	{
-		auto euclidean = (m_goal.position - state.position).norm();
+		double euclidean = distanceMultiplier * (m_goal.position - state.position).norm();
 		auto cell = m_map->WorldPositionToGridCell(state.position);
 		if (!cell.IsValid())
 			return euclidean;
diff --git a/planner/src/algo/heuristics.h b/planner/src/algo/heuristics.h
index 3157e3b..7dcfd26 100644
--- a/planner/src/algo/heuristics.h
+++ b/planner/src/algo/heuristics.h
@@ -68,6 +68,7 @@ namespace Planner {
 
 	public:
 		const float diagonalResolution;
+		const double distanceMultiplier;
 		const float costMultiplier;
 
 	private:
-- 
2.43.0


From 5f971b2e45746391218992136cda6f8291418329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:54 +0000
Subject: [PATCH 29/53] fix: path term of the smoother pushed the path away
 from the requested path

---
 planner/src/algo/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 877b74a..7db81fc 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -105,7 +105,7 @@ namespace Planner {
 				const Point2d& curr = m_currentPath[i].position;
 
 				// Original path term
-				gradients[i] += m_param.pathWeight * (path[i].position - curr);
+				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
 				if (m_map->IsInsideMap(curr)) {
 					// Collision term
-- 
2.43.0


From f29c0a10e21778a2d1923f28c50ce13405606fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:22 +0000
Subject: [PATCH 30/53] fix: smoother avoided a cell that does not exist on a
 map without obstacles

---
 planner/src/algo/smoother.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 7db81fc..0831d5a 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -107,9 +107,10 @@ namespace Planner {
 				// Original path term
 				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
-				if (m_map->IsInsideMap(curr)) {
+				const GridCellPosition obstacleCell = m_map->IsInsideMap(curr) ? m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)) : GridCellPosition();
+				if (obstacleCell.IsValid()) {
 					// Collision term
-					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)));
+					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(obstacleCell);
 					float obstDist = dirToClosestObs.norm();
 					if (obstDist < unsafeRadius)
 						gradients[i] += m_param.collisionWeight * (obstDist - unsafeRadius) * dirToClosestObs / obstDist;
@@ -118,10 +119,11 @@ namespace Planner {
 					const auto& alpha = m_gvd->alpha;
 					const auto& dMax = m_gvd->dMax;
 					if (obstDist < dMax && m_param.voronoiWeight > 0.0f) {
-						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr)));
+						const GridCellPosition voroEdgeCell = m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr));
+						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(voroEdgeCell);
 						float voroDist = dirToClosestVoroEdge.norm();
 
-						if (voroDist > 0.0f) {
+						if (voroEdgeCell.IsValid() && voroDist > 0.0f) {
 							float alphaPlusObstDist = alpha + obstDist;
 							float obstDistMinusDMax = obstDist - dMax;
 							float obstDistPlusVoroDist = obstDist + voroDist;
-- 
2.43.0


From 00f1ef80e784ae87f5931d04148d85aa577b84ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:42 +0000
Subject: [PATCH 31/53] fix: hybrid A* steered more than the minimum turning
 radius allows

---
 planner/src/algo/hybrid_a_star.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index fb4b68c..18da35b 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -21,8 +21,9 @@ namespace Planner {
 		m_deltas.reserve(m_param.numGeneratedMotion);
 		const double deltaMax = m_model->GetSteeringAngleFromTurningRadius(m_param.minTurningRadius);
 		m_deltas.push_back(0.0);
-		for (unsigned int i = 0; i < m_param.numGeneratedMotion / 2; i++) {
-			double delta = (i + 1) / 2.0 * deltaMax;
+		const unsigned int numSteer = m_param.numGeneratedMotion / 2;
+		for (unsigned int i = 0; i < numSteer; i++) {
+			double delta = (i + 1) * deltaMax / numSteer;
 			m_deltas.push_back(delta);
 			m_deltas.push_back(-delta);
 		}
-- 
2.43.0


From a74a69c6aad14eecbdc4accbe3a82851db77a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:25 +0000
Subject: [PATCH 32/53] fix: hybrid A* read the Voronoi field outside the map

---
 planner/src/algo/hybrid_a_star.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 18da35b..570bf01 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -101,8 +101,9 @@ namespace Planner {
 		for (double length = 0.0; length < pathLength; length += interpLength) {
 			auto position = path.Interpolate(length / pathLength).position;
 			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
-			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
-			voronoiCost = m_gvd->GetPathCost(cell);
+			// Between the states that were validated, a path can slightly leave the map
+			if (m_occupancyMap->IsInsideMap(cell))
+				voronoiCost = m_gvd->GetPathCost(cell);
 		}
 
 		voronoiCost *= interpLength;
-- 
2.43.0


From cfb881bb563a04015008560d503d4e151f3a4481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:15 +0000
Subject: [PATCH 33/53] fix: hybrid A* charged the Voronoi field of the last
 sample only

---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 570bf01..bfb5df9 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -103,7 +103,7 @@ namespace Planner {
 			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
 			// Between the states that were validated, a path can slightly leave the map
 			if (m_occupancyMap->IsInsideMap(cell))
-				voronoiCost = m_gvd->GetPathCost(cell);
+				voronoiCost += m_gvd->GetPathCost(cell);
 		}
 
 		voronoiCost *= interpLength;
-- 
2.43.0


From a40526a23f89d2c964e919c55c5dd9352da5d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:03 +0000
Subject: [PATCH 34/53] fix: hybrid A* never charged for changing direction
 between motions

---
 planner/src/algo/hybrid_a_star.cpp | 12 ++++++++++--
 planner/src/algo/hybrid_a_star.h   |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index bfb5df9..684c8e7 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -91,6 +91,14 @@ namespace Planner {
 		return neighbors;
 	}
 
+	double HybridAStar::StatePropagator::GetSwitchingCost(const State& state, const PathNonHolonomicSE2Base& path) const
+	{
+		Direction direction = path.GetDirection(0.0);
+		if (state.direction == Direction::NoMotion || direction == Direction::NoMotion)
+			return 0.0;
+		return state.direction == direction ? 0.0 : m_param.directionSwitchingCost;
+	}
+
 	double HybridAStar::StatePropagator::GetVoronoiCost(const PathNonHolonomicSE2Base& path) const
 	{
 		PP_PROFILE_FUNCTION();
@@ -141,7 +149,7 @@ namespace Planner {
 		default:
 			pathCost = 0.0;
 		}
-		double switchingCost = action.path->GetDirection(1.0) == action.path->GetDirection(1.0) ? 0.0 : m_param.directionSwitchingCost;
+		double switchingCost = GetSwitchingCost(state, *action.path);
 		double voronoiCost = GetVoronoiCost(*action.path);
 		cost = pathCost + switchingCost + voronoiCost;
 
@@ -169,7 +177,7 @@ namespace Planner {
 
 		// Compute transition cost
 		double voronoiCost = GetVoronoiCost(*action.path);
-		cost = pathAndSwitchingCosts + voronoiCost;
+		cost = pathAndSwitchingCosts + GetSwitchingCost(state, *action.path) + voronoiCost;
 
 		return true;
 	}
diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 3aac712..ff7a7d4 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -130,6 +130,9 @@ namespace Planner {
 			const SearchParameters& GetParameters() const { return m_param; }
 
 		private:
+			/// @brief Cost of changing direction between @state and @path.
+			double GetSwitchingCost(const State& state, const PathNonHolonomicSE2Base& path) const;
+
 			double GetVoronoiCost(const PathNonHolonomicSE2Base& path) const;
 
 			/// @brief Update state assuming constant steer angle and bicycle
-- 
2.43.0


From 53621f702c0ae12f227430edfe8f2e84928fdad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:51 +0000
Subject: [PATCH 35/53] fix: hybrid A* missed goals whose heading is one turn
 away

---
 planner/src/algo/hybrid_a_star.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index ff7a7d4..f412d66 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -210,7 +210,7 @@ namespace Planner {
 		private:
 			inline bool IdenticalPoses(const Pose2d& lhs, const Pose2d& rhs, double tol = 1e-3)
 			{
-				return (lhs.position - rhs.position).norm() < tol && abs(lhs.theta - rhs.theta) < tol * M_PI / 180.0;
+				return (lhs.position - rhs.position).norm() < tol && abs(Pose2d(0.0, 0.0, lhs.theta - rhs.theta).WrapTheta()) < tol * M_PI / 180.0;
 			}
 		};
 
-- 
2.43.0


From 84cd2a51a32ba9fece538ea81a0a7ae0746364d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:43 +0000
Subject: [PATCH 36/53] fix: hybrid A* dropped the goal when its cell was
 already visited

---
 planner/src/algo/hybrid_a_star.cpp | 1 +
 planner/src/algo/hybrid_a_star.h   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 684c8e7..eb4449d 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -173,6 +173,7 @@ namespace Planner {
 		double pathAndSwitchingCosts = path->ComputeCost(m_param.directionSwitchingCost,
 			m_param.reverseCostMultiplier, m_param.forwardCostMultiplier);
 		child = CreateStateFromPath(path);
+		child.isGoal = true;
 		action.path = std::move(path);
 
 		// Compute transition cost
diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index f412d66..646ea92 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -63,6 +63,8 @@ namespace Planner {
 			Pose2i discretePose;
 			/// @brief Pose
 			Pose2d continuousPose;
+			/// @brief Whether the state is exactly the goal.
+			bool isGoal = false;
 
 			/// @brief Hasher for the discretized configuration space.
 			/// @details Two states are considered equal if they correspond to the
@@ -78,10 +80,11 @@ namespace Planner {
 			};
 
 			/// @brief Check if two states correspond to the same cell.
+			/// @details The goal is not represented by other states of its cell.
 			struct Equal {
 				bool operator()(const State& lhs, const State& rhs) const
 				{
-					return lhs.discretePose == rhs.discretePose;
+					return lhs.isGoal == rhs.isGoal && lhs.discretePose == rhs.discretePose;
 				}
 			};
 		};
@@ -123,6 +126,7 @@ namespace Planner {
 			State& SetGoalState(const Pose2d& goal)
 			{
 				m_goalState = CreateStateFromPose(goal);
+				m_goalState.isGoal = true;
 				return m_goalState;
 			}
 
-- 
2.43.0


From fc494962af8f6174dfca49756ce4bf2da53ce519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:33 +0000
Subject: [PATCH 37/53] fix: hybrid A* path could miss cusps and the goal when
 sampled

---
 planner/src/algo/hybrid_a_star.cpp | 33 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index eb4449d..8ad1dab 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -277,28 +277,29 @@ namespace Planner {
 			auto path = m_graphSearch.GetCompositePath();
 			const double pathLength = path->GetLength();
 
-			// Generate ratio at which to sample the path and find indices of cusp points
+			// Generate ratio at which to sample the path and find indices of
+			// cusp points. The path is sampled at regular interval between the
+			// cusp points.
 			std::vector<double> ratios;
 			auto cuspRatios = path->GetCuspPointRatios();
-			cuspRatios.insert(0.0);
 			cuspRatios.insert(1.0);
-			ratios.reserve(pathLength / pathInterpolation + cuspRatios.size());
-			auto cuspRatioIt = cuspRatios.begin();
-			for (double length = 0.0; length <= pathLength; length += pathInterpolation) {
-				// Sample cusp point
-				double cuspLength = *cuspRatioIt * pathLength;
-				if (length >= cuspLength - pathInterpolation / 2 && length < cuspLength + pathInterpolation / 2) {
-					cuspIndices.insert(ratios.size());
-					ratios.push_back(*cuspRatioIt);
-					cuspRatioIt++;
-				} else {
-					// Sample at regular interval
-					ratios.push_back(length / pathLength);
-				}
+			ratios.reserve(pathLength / pathInterpolation + 2 * cuspRatios.size() + 1);
+			cuspIndices.insert(0);
+			ratios.push_back(0.0);
+			for (double cuspRatio : cuspRatios) {
+				const double prevRatio = ratios.back();
+				const int num = std::ceil((cuspRatio - prevRatio) * pathLength / pathInterpolation);
+				for (int i = 1; i < num; i++)
+					ratios.push_back(prevRatio + (cuspRatio - prevRatio) * i / num);
+				cuspIndices.insert(ratios.size());
+				ratios.push_back(cuspRatio);
 			}
 
 			// Sample points
-			graphSearchPath = path->Interpolate(ratios);
+			if (path->Size() == 0)
+				graphSearchPath = { this->m_init };
+			else
+				graphSearchPath = path->Interpolate(ratios);
 		}
 
 		// Smooth the path
-- 
2.43.0


From fe43d56e6dc5ffc099e65a8b40c21297f712f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:23 +0000
Subject: [PATCH 38/53] fix: failed hybrid A* search left the path of the
 previous search

---
 planner/src/algo/hybrid_a_star.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 8ad1dab..d315198 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -256,6 +256,10 @@ namespace Planner {
 			return Status::Failure;
 		}
 
+		// Discard the result of the previous search
+		m_path.clear();
+		m_stats = Stats();
+
 		// Update members
 		m_obstacleHeuristic->Update(this->m_goal);
 		m_gvd->Update();
-- 
2.43.0


From 43009a62c40c26af2c8e1387279039635238a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:16 +0000
Subject: [PATCH 39/53] fix: non-holonomic heuristic did not wrap headings just
 below a whole turn

---
 planner/src/algo/heuristics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 12cfdb4..b58dd42 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -85,7 +85,8 @@ namespace Planner {
 		int j = (int)round((delta.y() + offsetY) / spatialResolution);
 		double theta = delta.theta < 0.0 ? delta.theta + 2 * M_PI : delta.theta;
 		int k = (int)round(theta / angularResolution);
-		if (k >= numAngular)
+		// A whole turn can be closer than the last value
+		if (k >= numAngular || 2 * M_PI - theta < theta - k * angularResolution)
 			k = 0;
 
 		if (i < 0 || i >= numSpatialX || j < 0 || j >= numSpatialY) {
-- 
2.43.0


From 574f4331c539086a4f154b2e40adb99fcd60e26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:03 +0000
Subject: [PATCH 40/53] fix: headings of integer poses were wrapped as radians

---
 planner/src/geometry/2dplane.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/geometry/2dplane.h b/planner/src/geometry/2dplane.h
index cd8023f..2ebceac 100644
--- a/planner/src/geometry/2dplane.h
+++ b/planner/src/geometry/2dplane.h
@@ -44,6 +44,10 @@ namespace Planner {
 		return t;
 	}
 
+	/// @brief The heading of a discrete pose is an index, it is not wrapped.
+	template <>
+	int Pose2<int>::WrapTheta() const;
+
 	/// @brief Add the Pose @rhs after @lhs.
 	/// @warning This operation is not commutative.
 	template <typename T>
-- 
2.43.0


From f914c43fc9c7f0e60e18f0bd20d9868760d429a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:30 +0000
Subject: [PATCH 41/53] fix: thread-safe singleton read its instance while
 another thread created it

---
 planner/src/utils/singleton.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/planner/src/utils/singleton.h b/planner/src/utils/singleton.h
index 2b8b6ae..3806abe 100644
--- a/planner/src/utils/singleton.h
+++ b/planner/src/utils/singleton.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 
@@ -97,7 +98,8 @@ namespace Planner {
 		static T& Get()
 		{
 			// Prevents the lock-step required each time the instance is requested
-			if (!m_instance_ptr) {
+			T* instance = m_instance.load(std::memory_order_acquire);
+			if (!instance) {
 				// Lock is required here though, to prevent multiple threads
 				// initialising multiple instances of the class when it turns out it
 				// has not been initialised yet
@@ -107,8 +109,10 @@ namespace Planner {
 				if (!m_instance_ptr) {
 					m_instance_ptr = std::unique_ptr<T>(new T());
 				}
+				instance = m_instance_ptr.get();
+				m_instance.store(instance, std::memory_order_release);
 			}
-			return *m_instance_ptr;
+			return *instance;
 		}
 
 		/// @brief Provide global access to release/delete the instance.
@@ -116,6 +120,7 @@ namespace Planner {
 		{
 			std::lock_guard<std::mutex> lock(m_constructed);
 			if (m_instance_ptr) {
+				m_instance.store(nullptr, std::memory_order_release);
 				m_instance_ptr.reset();
 			}
 		}
@@ -125,6 +130,8 @@ namespace Planner {
 		~SingletonThreadSafe() = default;
 
 		static std::unique_ptr<T> m_instance_ptr;
+		/// @brief The instance once it is constructed, can be read without lock.
+		static std::atomic<T*> m_instance;
 		static std::mutex m_constructed;
 
 	private:
@@ -136,4 +143,6 @@ namespace Planner {
 	std::mutex SingletonThreadSafe<T>::m_constructed;
 	template <class T>
 	std::unique_ptr<T> SingletonThreadSafe<T>::m_instance_ptr = nullptr;
+	template <class T>
+	std::atomic<T*> SingletonThreadSafe<T>::m_instance { nullptr };
 }
-- 
2.43.0


From 6d6a4bfb76620d16deccdde48a4420b6e6384df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:57 +0000
Subject: [PATCH 42/53] fix: is_occupied could not be called from Python

---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index dc43dcb..12ccebf 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -348,7 +348,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def("update", &OccupancyMap::Update)
 		.def("set_position", &OccupancyMap::SetPosition)
 		.def("get_position", &OccupancyMap::GetPosition)
-		.def("is_occupied)", &OccupancyMap::IsOccupied)
+		.def("is_occupied", &OccupancyMap::IsOccupied)
 		.def<int (OccupancyMap::*)(const GridCellPosition&)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<int (OccupancyMap::*)(int, int)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<Ref<GVD::ObstacleDistanceMap>& (OccupancyMap::*)()>("get_obstacle_map", &OccupancyMap::GetObstacleDistanceMap)
-- 
2.43.0


From e0718a2e2404faaf5ebaade6348f1bf7db5e4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:38 +0000
Subject: [PATCH 43/53] fix: path validation of a Python state validator called
 its state validation

---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 12ccebf..d119a63 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -402,7 +402,7 @@ PYBIND11_MODULE(pyplanning, m)
 	struct StateValidatorSE2BaseWrapper : StateValidatorSE2Base {
 		using StateValidatorSE2Base::StateValidatorSE2Base;
 		virtual bool IsStateValid(const Pose2d& a) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a); }
-		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a, b); }
+		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsPathValid, a, b); }
 	};
 
 	class_<StateValidatorSE2Base, Ref<StateValidatorSE2Base>, StateValidatorSE2BaseWrapper>(m, "StateValidatorSE2Base")
-- 
2.43.0


From 073f14b8234bf5ccb90a79d89ca67b0a92438658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:47 +0000
Subject: [PATCH 44/53] fix: Python maps and heuristics died while a planner
 was using them

---
 interfaces/python/src/pyplanning.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index d119a63..838a46a 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -110,7 +110,7 @@ PYBIND11_MODULE(pyplanning, m)
 	class_<HybridAStar, PathPlannerSE2Base>(m, "HybridAStar")
 		.def(init<>())
 		.def(init<const HybridAStar::SearchParameters&>())
-		.def("initialize", &HybridAStar::Initialize)
+		.def("initialize", &HybridAStar::Initialize, keep_alive<1, 2>())
 		.def_readwrite("path_interpolation", &HybridAStar::pathInterpolation)
 		.def("get_stats", &HybridAStar::GetStats)
 		.def("get_graph_search_explored_path_set", &HybridAStar::GetGraphSearchExploredPathSet)
@@ -151,7 +151,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<>());
 
 	class_<AStarStatePropagatorFcnN2, Ref<AStarStatePropagatorFcnN2>, AStarStatePropagatorN2>(m, "AStarStatePropagatorFcnN2")
-		.def(init<const Ref<OccupancyMap>&, const std::function<double(const GridCellPosition&, const GridCellPosition&)>&>());
+		.def(init<const Ref<OccupancyMap>&, const std::function<double(const GridCellPosition&, const GridCellPosition&)>&>(), keep_alive<1, 2>());
 
 	class_<PathPlannerN2Base, PathPlannerN2BaseWrapper>(m, "PathPlannerN2Base")
 		.def(init<>())
@@ -168,7 +168,7 @@ PYBIND11_MODULE(pyplanning, m)
 
 	class_<PyAStarN2, PathPlannerN2Base>(m, "AStarN2")
 		.def(init<>())
-		.def("initialize", &AStarN2::Initialize)
+		.def("initialize", &AStarN2::Initialize, keep_alive<1, 2>(), keep_alive<1, 3>())
 		.def("get_explored_states", &PyAStarN2::GetExploredStates)
 		.def("get_optimal_cost", &AStarN2::GetOptimalCost);
 
@@ -192,7 +192,7 @@ PYBIND11_MODULE(pyplanning, m)
 	class_<PyBidirectionalAStarN2, PathPlannerN2Base>(m, "BidirectionalAStarN2")
 		.def(init<>())
 		.def_static("get_average_heuristic_pair", &BidirectionalAStarN2::GetAverageHeuristicPair)
-		.def("initialize", &BidirectionalAStarN2::Initialize)
+		.def("initialize", &BidirectionalAStarN2::Initialize, keep_alive<1, 2>(), keep_alive<1, 3>(), keep_alive<1, 4>(), keep_alive<1, 5>())
 		.def("get_explored_states", &PyBidirectionalAStarN2::GetExploredStates)
 		.def("get_optimal_cost", &BidirectionalAStarN2::GetOptimalCost);
 
@@ -415,13 +415,13 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<const Ref<StateSpaceSE2>&>());
 
 	class_<StateValidatorOccupancyMap, Ref<StateValidatorOccupancyMap>, StateValidatorSE2Base>(m, "StateValidatorOccupancyMap")
-		.def(init<const Ref<StateSpaceSE2>&, const Ref<OccupancyMap>&>())
+		.def(init<const Ref<StateSpaceSE2>&, const Ref<OccupancyMap>&>(), keep_alive<1, 3>())
 		.def("get_occupancy_map", &StateValidatorOccupancyMap::GetOccupancyMap)
 		.def_readwrite("min_path_interpolation_distance", &StateValidatorOccupancyMap::minPathInterpolationDistance)
 		.def_readwrite("min_safe_radius", &StateValidatorOccupancyMap::minSafeRadius);
 
 	class_<GVD>(m, "GVD")
-		.def(init<const Ref<OccupancyMap>&>())
+		.def(init<const Ref<OccupancyMap>&>(), keep_alive<1, 2>())
 		.def("update", &GVD::Update)
 		.def<float (GVD::*)(int, int) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
 		.def<float (GVD::*)(const GridCellPosition&) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
-- 
2.43.0


From 69885eda8d104b438281c09f87ed6018f99dc4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:32 +0000
Subject: [PATCH 45/53] fix: state propagators could not be written in Python

---
 interfaces/python/src/pyplanning.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 838a46a..0f9a84d 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -140,6 +140,9 @@ PYBIND11_MODULE(pyplanning, m)
 	class_<AStarHeuristicFcnN2, Ref<AStarHeuristicFcnN2>, AStarHeuristicN2>(m, "AStarHeuristicFcnN2")
 		.def(init<std::function<double(const GridCellPosition&, const GridCellPosition&)>>());
 
+	class_<NullAction>(m, "NullAction")
+		.def(init<>());
+
 	using AStarStatePropagatorN2 = AStarStatePropagator<GridCellPosition>;
 	struct AStarStatePropagatorN2Wrapper : AStarStatePropagatorN2 {
 		using AStarStatePropagatorN2::AStarStatePropagatorN2;
-- 
2.43.0


From f7143b3ee38bde7f625706752d4767e0d00bf497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:39 +0000
Subject: [PATCH 46/53] fix: points could not be added or subtracted in Python

---
 interfaces/python/src/pyplanning.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 0f9a84d..4149e44 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -212,8 +212,8 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<double, double>())
 		.def<double& (Point2d::*)()>("x", &Point2d::x)
 		.def<double& (Point2d::*)()>("y", &Point2d::y)
-		.def(self + self)
-		.def(self - self)
+		.def("__add__", [](const Point2d& lhs, const Point2d& rhs) -> Point2d { return lhs + rhs; }, is_operator())
+		.def("__sub__", [](const Point2d& lhs, const Point2d& rhs) -> Point2d { return lhs - rhs; }, is_operator())
 		.def(self == self)
 		.def(self != self);
 
-- 
2.43.0


From da0dedca34db26352100e2854927f2d748718304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:07 +0000
Subject: [PATCH 47/53] fix: positions far outside of the map, or not finite,
 were converted to cells with undefined behaviour

---
 planner/src/state_validator/occupancy_map.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 0e75fd3..b30066f 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -4,7 +4,9 @@
 #include "state_validator/gvd.h"
 #include "geometry/2dplane.h"
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <unordered_map>
 #include <set>
 
@@ -103,6 +105,16 @@ namespace Planner {
 			return { row * resolution, column * resolution };
 		}
 
+		/// @brief Round down to an index. Indices far outside of any map are
+		/// saturated so that they, and their differences, fit in an integer.
+		static inline int ToCellIndex(double value)
+		{
+			if (std::isnan(value))
+				return -1;
+			constexpr double limit = std::numeric_limits<int>::max() / 4;
+			return static_cast<int>(std::clamp(std::floor(value), -limit, limit));
+		}
+
 		inline GridCellPosition GridPositionToGridCell(const Point2d& position, bool bounded) const
 		{
 			return GridPositionToGridCell(position.x(), position.y(), bounded);
@@ -110,8 +122,8 @@ namespace Planner {
 
 		inline GridCellPosition GridPositionToGridCell(double x, double y, bool bounded) const
 		{
-			int row = static_cast<int>(std::floor(x / resolution));
-			int col = static_cast<int>(std::floor(y / resolution));
+			int row = ToCellIndex(x / resolution);
+			int col = ToCellIndex(y / resolution);
 
 			if (!bounded)
 				return GridCellPosition(row, col);
-- 
2.43.0


From 1cfe51107fb2f1e0e1284842bd51038c38ffb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:06 +0000
Subject: [PATCH 48/53] fix: make OccupancyMap.get_obstacle_map callable from
 Python

---
 interfaces/python/src/pyplanning.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 4149e44..d78596b 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -343,6 +343,10 @@ PYBIND11_MODULE(pyplanning, m)
 		virtual bool IsOccupied(const GridCellPosition& a) override { PYBIND11_OVERRIDE_PURE(bool, OccupancyMap, IsOccupied, a); }
 	};
 
+	class_<GVD::ObstacleDistanceMap, Ref<GVD::ObstacleDistanceMap>>(m, "ObstacleDistanceMap")
+		.def<float (GVD::ObstacleDistanceMap::*)(int, int) const>("get_distance_to_nearest_obstacle", &GVD::ObstacleDistanceMap::GetDistanceToNearestObstacle)
+		.def<float (GVD::ObstacleDistanceMap::*)(const GridCellPosition&) const>("get_distance_to_nearest_obstacle", &GVD::ObstacleDistanceMap::GetDistanceToNearestObstacle);
+
 	class_<OccupancyMap, Ref<OccupancyMap>, OccupancyMapWrapper>(m, "OccupancyMap")
 		.def(init<float>())
 		.def("initialize_size", &OccupancyMap::InitializeSize)
-- 
2.43.0


From f057e3bf2005fa00fc14e86b0b9773c65cbf117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:51 +0000
Subject: [PATCH 49/53] fix: let the log be started again after it was released

The registered logger kept its name in the registry of spdlog, where it was
of no use because the log had been moved out of it, and the second one with
that name was refused with an exception.
---
 planner/src/core/log.cpp | 11 +++++------
 planner/src/core/log.h   |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/planner/src/core/log.cpp b/planner/src/core/log.cpp
index 2d52872..8cb8385 100644
--- a/planner/src/core/log.cpp
+++ b/planner/src/core/log.cpp
@@ -6,7 +6,7 @@
 
 namespace Planner {
 
-	spdlog::logger&& Log::CreateLogger()
+	spdlog::logger Log::CreateLogger()
 	{
 		std::vector<spdlog::sink_ptr> logSinks;
 		logSinks.emplace_back(std::make_shared<spdlog::sinks::stdout_color_sink_mt>());
@@ -15,12 +15,11 @@ namespace Planner {
 		logSinks[0]->set_pattern("%^[%T] %n: %v%$");
 		logSinks[1]->set_pattern("[%T] [%l] %n: %v");
 
-		auto logger = std::make_shared<spdlog::logger>("Path-Planner", begin(logSinks), end(logSinks));
-		spdlog::register_logger(logger);
-		logger->set_level(spdlog::level::trace);
-		logger->flush_on(spdlog::level::trace);
+		spdlog::logger logger("Path-Planner", begin(logSinks), end(logSinks));
+		logger.set_level(spdlog::level::trace);
+		logger.flush_on(spdlog::level::trace);
 
-		return std::move(*logger);
+		return logger;
 	}
 
 }
diff --git a/planner/src/core/log.h b/planner/src/core/log.h
index 54af103..653ef29 100644
--- a/planner/src/core/log.h
+++ b/planner/src/core/log.h
@@ -21,7 +21,7 @@ namespace Planner {
 			spdlog::logger(CreateLogger()) { }
 
 		/// @brief Define the logger and create the list of sink associated to it.
-		static spdlog::logger&& CreateLogger();
+		static spdlog::logger CreateLogger();
 	};
 
 }
-- 
2.43.0


From 5e9ffe0a35c5a8de0357a84ed058748050c60422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:21 +0000
Subject: [PATCH 50/53] fix: keep Python heuristics alive as long as their
 averaged pair

get_average_heuristic_pair returned a pair that calls the heuristics but did
not keep the Python objects, so that the search failed with a call of a pure
virtual function when nobody else referred to them.
---
 interfaces/python/src/pyplanning.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index d78596b..b6f962b 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -194,7 +194,16 @@ PYBIND11_MODULE(pyplanning, m)
 
 	class_<PyBidirectionalAStarN2, PathPlannerN2Base>(m, "BidirectionalAStarN2")
 		.def(init<>())
-		.def_static("get_average_heuristic_pair", &BidirectionalAStarN2::GetAverageHeuristicPair)
+		.def_static("get_average_heuristic_pair", [](const Ref<AStarHeuristicN2>& fHeuristic, const Ref<AStarHeuristicN2>& rHeuristic) {
+			auto [fAverage, rAverage] = BidirectionalAStarN2::GetAverageHeuristicPair(fHeuristic, rHeuristic);
+			// The pair calls the heuristics, which may be written in Python
+			auto pair = pybind11::make_tuple(fAverage, rAverage);
+			for (auto average : pair) {
+				detail::keep_alive_impl(average, cast(fHeuristic));
+				detail::keep_alive_impl(average, cast(rHeuristic));
+			}
+			return pair;
+		})
 		.def("initialize", &BidirectionalAStarN2::Initialize, keep_alive<1, 2>(), keep_alive<1, 3>(), keep_alive<1, 4>(), keep_alive<1, 5>())
 		.def("get_explored_states", &PyBidirectionalAStarN2::GetExploredStates)
 		.def("get_optimal_cost", &BidirectionalAStarN2::GetOptimalCost);
-- 
2.43.0


From d7438c686920bf0b2d290cba538e2779b886f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:51 +0000
Subject: [PATCH 51/53] fix: deep search trees exhausted the stack when they
 were deleted or traversed

---
 planner/src/utils/node.h | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/planner/src/utils/node.h b/planner/src/utils/node.h
index 6239954..fd6fafd 100644
--- a/planner/src/utils/node.h
+++ b/planner/src/utils/node.h
@@ -19,7 +19,18 @@ namespace Planner {
 		template <typename... Args>
 		Node(Args&&... args) :
 			m_data(T(std::forward<Args>(args)...)) { }
-		~Node() = default;
+		~Node()
+		{
+			// The descendants are deleted one by one, the recursive deletion
+			// of a deep tree exhausts the stack
+			while (!m_children.empty()) {
+				Scope<Node> child = std::move(m_children.back());
+				m_children.pop_back();
+				for (auto& grandchild : child->m_children)
+					m_children.push_back(std::move(grandchild));
+				child->m_children.clear();
+			}
+		}
 
 		/// @brief Perform a pre-order traversal of the tree whose root node
 		/// is *this.
@@ -27,9 +38,13 @@ namespace Planner {
 		template <typename Func>
 		void PreOrderTraversal(Func func) const
 		{
-			func(*this);
-			for (auto& child : m_children) {
-				child->PreOrderTraversal(func);
+			std::vector<const Node*> nodes { this };
+			while (!nodes.empty()) {
+				const Node* node = nodes.back();
+				nodes.pop_back();
+				func(*node);
+				for (auto it = node->m_children.rbegin(); it != node->m_children.rend(); it++)
+					nodes.push_back(it->get());
 			}
 		}
 
@@ -39,10 +54,18 @@ namespace Planner {
 		template <typename Func>
 		void PostOrderTraversal(Func func) const
 		{
-			for (auto& child : m_children) {
-				child->PostOrderTraversal(func);
+			// Each node of the current branch and the number of its children
+			// already visited
+			std::vector<std::pair<const Node*, size_t>> branch { { this, 0 } };
+			while (!branch.empty()) {
+				auto& [node, visited] = branch.back();
+				if (visited < node->m_children.size()) {
+					branch.push_back({ node->m_children[visited++].get(), 0 });
+				} else {
+					func(*node);
+					branch.pop_back();
+				}
 			}
-			func(*this);
 		}
 
 		/// @brief Compute the depth of the node in the tree.
-- 
2.43.0


From bff42498c4439412317fad6cbd75451bbea69f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:19 +0000
Subject: [PATCH 52/53] fix: resizing an occupancy map lost its obstacles but
 kept them registered

---
 .../state_validator/obstacle_list_occupancy_map.cpp | 13 +++++++++++++
 .../state_validator/obstacle_list_occupancy_map.h   |  4 ++++
 planner/src/state_validator/occupancy_map.h         |  2 +-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index 5d37067..e4c19d8 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -12,6 +12,19 @@ namespace Planner {
 	{
 	}
 
+	void ObstacleListOccupancyMap::InitializeSize(float width, float height)
+	{
+		OccupancyMap::InitializeSize(width, height);
+		// Draw the obstacles on the new grid
+		for (auto& [obstacle, footprint] : m_obstacles) {
+			footprint.cells = obstacle->GetBoundaryGridCellPosition(*this);
+			for (auto& cell : footprint.cells) {
+				(*m_occupancyMatrix)[cell.row][cell.col] = footprint.id;
+				m_obstacleDistanceMap->SetObstacle(cell);
+			}
+		}
+	}
+
 	unsigned int FindSmallestIDAvailable(const std::set<unsigned int>& IDs)
 	{
 		constexpr int smallestAllowedID = 0;
diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.h b/planner/src/state_validator/obstacle_list_occupancy_map.h
index 8a6fb64..0bf679d 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.h
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.h
@@ -14,6 +14,10 @@ namespace Planner {
 	public:
 		ObstacleListOccupancyMap(float resolution);
 
+		/// @copydoc Planner::OccupancyMap::InitializeSize
+		/// @details The obstacles of the map are kept.
+		virtual void InitializeSize(float width, float height) override;
+
 		/// @brief Add the obstacle to the grid.
 		bool AddObstacle(const Ref<Obstacle>& obstacle);
 		/// @brief Remove the obstacle from the grid.
diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index b30066f..c44631b 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -30,7 +30,7 @@ namespace Planner {
 		virtual ~OccupancyMap() = default;
 
 		/// @brief Initialize the size of the occupancy grid.
-		void InitializeSize(float width, float height);
+		virtual void InitializeSize(float width, float height);
 		/// @brief Return the number of rows in the occupancy grid.
 		int Rows() const { return m_rows; }
 		/// @brief Return the number of columns in the occupancy grid.
-- 
2.43.0


From cc033b99b113f11ab9ca07c1156db1c601696be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:33 +0000
Subject: [PATCH 53/53] fix: a planner whose initialization failed returned the
 path of an earlier search

---
 planner/src/algo/a_star.h               | 15 +++++++++++----
 planner/src/algo/bidirectional_a_star.h |  2 ++
 planner/src/algo/hybrid_a_star.cpp      |  9 +++++----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 2597d11..51e89dc 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -329,6 +329,7 @@ namespace Planner {
 		{
 			PP_PROFILE_FUNCTION();
 
+			Clear();
 			if (!isInitialized) {
 				PP_ERROR("The algorithm has not been initialized successfully.");
 				return Status::Failure;
@@ -347,16 +348,22 @@ namespace Planner {
 			return Status::Failure;
 		}
 
+		/// @brief Discard the result of the previous search.
+		void Clear()
+		{
+			m_frontier.Clear();
+			m_explored.Clear();
+			m_solutionNode = nullptr;
+			m_rootNode.reset();
+		}
+
 	protected:
 		/// @brief Initialize the search with the start pose.
 		inline virtual void InitializeSearch()
 		{
 			PP_PROFILE_FUNCTION();
 
-			m_frontier.Clear();
-			m_explored.Clear();
-			m_solutionNode = nullptr;
-			m_rootNode.reset();
+			Clear();
 
 			m_rootNode = makeScope<Node>(this->m_init);
 			m_frontier.Push(m_rootNode.get());
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 2c95aa6..91680b8 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -134,6 +134,8 @@ namespace Planner {
 		/// @copydoc Planner::PathPlanner::SearchPath
 		virtual Status SearchPath() override
 		{
+			m_fSearch.Clear();
+			m_rSearch.Clear();
 			if (!isInitialized) {
 				PP_ERROR("The algorithm has not been initialized successfully.");
 				return Status::Failure;
diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index d315198..a7fb9e9 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -251,15 +251,16 @@ namespace Planner {
 
 		// TODO create stats saving status of each step (graph search + optimization, number of iteration...)
 
+		// Discard the result of the previous search
+		m_path.clear();
+		m_stats = Stats();
+		m_graphSearch.Clear();
+
 		if (!isInitialized) {
 			PP_ERROR("The algorithm has not been initialized successfully.");
 			return Status::Failure;
 		}
 
-		// Discard the result of the previous search
-		m_path.clear();
-		m_stats = Stats();
-
 		// Update members
 		m_obstacleHeuristic->Update(this->m_goal);
 		m_gvd->Update();
-- 
2.43.0

