From 84d62e5c44afddf69fe9939deabf2ed6772f1bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 01/69] fix: do not invert BARRIER/CBARRIER in NOT tests

The barrier sets of a contextual test were matched with the POS_NOT flag of
the test still set, so NOT *1 X BARRIER Y stopped at the first cohort that
did not match Y instead of the first one that did.
---
 src/GrammarApplicator_runContextualTest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 55e0417..cd4ae4a 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -97,7 +97,7 @@ Cohort* GrammarApplicator::runSingleTest(Cohort* cohort, const ContextualTest* t
 	context.origin = nullptr;
 	context.did_test = true;
 	if (test->barrier && cohort) {
-		dSMC_Context context = { nullptr, nullptr, nullptr, test->pos & ~POS_CAREFUL, false, false, false, true };
+		dSMC_Context context = { nullptr, nullptr, nullptr, test->pos & ~(POS_CAREFUL | POS_NOT), false, false, false, true };
 		bool barrier = doesSetMatchCohortNormal(*cohort, test->barrier, &context);
 		if (barrier) {
 			seen_barrier = true;
@@ -106,7 +106,7 @@ Cohort* GrammarApplicator::runSingleTest(Cohort* cohort, const ContextualTest* t
 		}
 	}
 	if (test->cbarrier && cohort) {
-		dSMC_Context context = { nullptr, nullptr, nullptr, test->pos | POS_CAREFUL, false, false, false, true };
+		dSMC_Context context = { nullptr, nullptr, nullptr, (test->pos | POS_CAREFUL) & ~POS_NOT, false, false, false, true };
 		bool cbarrier = doesSetMatchCohortCareful(*cohort, test->cbarrier, &context);
 		if (cbarrier) {
 			seen_barrier = true;
-- 
2.43.0


From d6065c21c133328f9882a329ce45aa1e936637de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 02/69] fix: do not carry IFF's unapplied removals over to the
 next cohort

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index faaff84..2be1a53 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1367,6 +1367,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					readings_changed = true;
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_REMOVE || rule->type == K_IFF) {
 				if (!removed.empty() && (removed.size() < get_apply_to().cohort->readings.size() || (unsafe && !(rule->flags & RF_SAFE)) || (rule->flags & RF_UNSAFE))) {
@@ -1400,6 +1401,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					initEmptyCohort(*get_apply_to().cohort);
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_JUMP) {
 				auto to = getTagList(*rule->maplist).front();
-- 
2.43.0


From 943bd4631df82627f5925fef7d26590f66028d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 03/69] fix: keep protected readings when IFF acts as SELECT

---
 src/GrammarApplicator_runRules.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2be1a53..2a188a4 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -581,8 +581,8 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 				if (type == K_SELECT) {
 					reading->matched_target = true;
 					reading->matched_tests = true;
-					reading_contexts.push_back(context_stack.back());
 				}
+				reading_contexts.push_back(context_stack.back());
 				++num_iff;
 				++num_immutable;
 				continue;
@@ -720,8 +720,6 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 								if (reading && reading->immutable) {
 									reading->matched_target = true;
 									reading->matched_tests = true;
-									++num_active;
-									++num_iff;
 								}
 							}
 						}
-- 
2.43.0


From 7e281a8b8dbe4abed22e92c9e24f0eb6d71df74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 04/69] fix: REMPARENT and SWITCHPARENT leave no stale child
 behind

---
 src/GrammarApplicator_runRules.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2a188a4..4184e64 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1265,6 +1265,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			current.cohorts.erase(current.cohorts.begin() + cohort->local_number);
 		};
 
+		auto detach_from_parent = [&](Cohort& cohort) {
+			auto it = gWindow->cohort_map.find(cohort.dep_parent);
+			if (it != gWindow->cohort_map.end()) {
+				it->second->remChild(cohort.dep_self);
+			}
+			cohort.dep_parent = DEP_NO_PARENT;
+		};
+
 		auto make_relation_rtag = [&](Tag* tag, uint32_t id) {
 			UChar tmp[256] = { 0 };
 			u_sprintf(tmp, "R:%S:%u", tag->tag.data(), id);
@@ -2658,7 +2666,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				// this is a per-cohort rule
 				finish_reading_loop = false;
 				TRACE;
-				get_apply_to().cohort->dep_parent = DEP_NO_PARENT;
+				detach_from_parent(*get_apply_to().cohort);
 			}
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
@@ -2677,10 +2685,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				// clear dependencies
-				child->dep_parent = DEP_NO_PARENT;
-				parent->dep_parent = DEP_NO_PARENT;
+				detach_from_parent(*child);
+				detach_from_parent(*parent);
 				for (auto s : siblings) {
-					s->dep_parent = DEP_NO_PARENT;
+					detach_from_parent(*s);
 				}
 
 				// reattach
-- 
2.43.0


From bb80b7c8cb1be7dc28e651eea7305bfbb0a84bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 05/69] fix: keep <<< on the last cohort after SPLITCOHORT,
 COPYCOHORT and ADDCOHORT

---
 src/GrammarApplicator_runRules.cpp | 47 +++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 4184e64..6652957 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1265,6 +1265,30 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			current.cohorts.erase(current.cohorts.begin() + cohort->local_number);
 		};
 
+		// Keep <<< on the last cohort, and only there, after cohorts were added, removed, or moved around
+		auto update_endtag = [&](SingleWindow& which) {
+			auto has_endtag = [&](Cohort* c) {
+				return std::any_of(c->readings.begin(), c->readings.end(), [&](Reading* r) { return r->tags.count(endtag) != 0; });
+			};
+			if (std::none_of(which.cohorts.begin(), which.cohorts.end(), has_endtag)) {
+				return;
+			}
+			for (auto c : which.cohorts) {
+				for (auto r : c->readings) {
+					if (c != which.cohorts.back() && r->tags.count(endtag)) {
+						delTagFromReading(*r, endtag);
+					}
+					else if (c == which.cohorts.back() && !r->tags.count(endtag)) {
+						addTagToReading(*r, endtag);
+						if (updateValidRules(rules, intersects, endtag, *r)) {
+							iter_rules = intersects.find(rule->number);
+							iter_rules_end = intersects.end();
+						}
+					}
+				}
+			}
+		};
+
 		auto detach_from_parent = [&](Cohort& cohort) {
 			auto it = gWindow->cohort_map.find(cohort.dep_parent);
 			if (it != gWindow->cohort_map.end()) {
@@ -1565,21 +1589,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				TRACE;
 
 				size_t spacesInAddedWf = 0; // not used here
-				auto cCohort = add_cohort(get_apply_to().cohort, spacesInAddedWf);
+				add_cohort(get_apply_to().cohort, spacesInAddedWf);
 
-				// If the new cohort is now the last cohort, add <<< to it and remove <<< from previous last cohort
-				if (current.cohorts.back() == cCohort) {
-					for (auto r : current.cohorts[current.cohorts.size() - 2]->readings) {
-						delTagFromReading(*r, endtag);
-					}
-					for (auto r : current.cohorts.back()->readings) {
-						addTagToReading(*r, endtag);
-						if (updateValidRules(rules, intersects, endtag, *r)) {
-							iter_rules = intersects.find(rule->number);
-							iter_rules_end = intersects.end();
-						}
-					}
-				}
+				update_endtag(current);
 				indexSingleWindow(current);
 				readings_changed = true;
 
@@ -1801,6 +1813,12 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				current.cohorts.erase(current.cohorts.begin() + get_apply_to().cohort->local_number);
 
 				reindex();
+				if (get_apply_to().cohort->readings.front()->tags.count(endtag)) {
+					for (auto r : current.cohorts.back()->readings) {
+						addTagToReading(*r, endtag);
+					}
+				}
+				update_endtag(current);
 				indexSingleWindow(current);
 				readings_changed = true;
 
@@ -2454,6 +2472,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 
 					reindex(attach->parent);
+					update_endtag(*attach->parent);
 					indexSingleWindow(*attach->parent);
 					readings_changed = true;
 					reset_cohorts_for_loop = true;
-- 
2.43.0


From de17f1ab1d2a6390a097b745dc933f62c21589f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 06/69] fix: keep trying rules on cohorts that did not match
 earlier

---
 src/GrammarApplicator_runRules.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 6652957..0b8744b 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -487,7 +487,6 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		size_t num_active = 0;
 		size_t num_iff = 0;
-		size_t num_immutable = 0;
 
 		std::vector<Rule_Context> reading_contexts;
 		reading_contexts.reserve(cohort->readings.size());
@@ -499,7 +498,6 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		bool did_test = false;
 		bool test_good = false;
-		bool matched_target = false;
 
 		clear(readings_plain);
 		clear(subs_any);
@@ -584,7 +582,6 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 				}
 				reading_contexts.push_back(context_stack.back());
 				++num_iff;
-				++num_immutable;
 				continue;
 			}
 
@@ -661,7 +658,6 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 				}
 				rule_target = context_target = cohort;
 				reading->matched_target = true;
-				matched_target = true;
 				bool good = true;
 				// If we didn't already run the contextual tests, run them now.
 				if (!did_test) {
@@ -789,12 +785,9 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			cohort->type &= ~CT_NUM_CURRENT;
 		}
 
-		// If none of the readings were valid targets, remove this cohort from the rule's possible cohorts.
+		// If none of the readings were valid targets, there is nothing to do for this cohort.
+		// It must stay among the rule's possible cohorts, since later changes may make it match: removed tags, unmapped or restored readings, newly matching regexes, ...
 		if (num_active == 0 && (num_iff == 0 || rule.type != K_IFF)) {
-			if (num_immutable == 0 && !matched_target) {
-				--rocit;                         // We have already incremented rocit earlier, so take one step back...
-				cohortset->erase_n(rocit); // ...and one step forward again
-			}
 			context_stack.pop_back();
 			continue;
 		}
-- 
2.43.0


From b3fa43d709ddc8e49910768a4dfeced3539e432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 07/69] fix: forget a removed cohort's ignored readings when it
 is recycled

---
 src/Cohort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Cohort.cpp b/src/Cohort.cpp
index b515dc6..111f4e1 100644
--- a/src/Cohort.cpp
+++ b/src/Cohort.cpp
@@ -129,6 +129,7 @@ void Cohort::clear() {
 	readings.clear();
 	deleted.clear();
 	delayed.clear();
+	ignored.clear();
 	wread = nullptr;
 }
 
-- 
2.43.0


From 32f95d0b30e29b225e6bf2c23c6dab02d3a58316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 08/69] fix: a tag added to a set replaces the longer members
 it makes redundant

---
 src/Grammar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 1dc50f4..ad4e442 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -591,10 +591,10 @@ void Grammar::addTagToSet(Tag* rtag, Set* set) {
 	}
 	if (rtag->type & T_SPECIAL) {
 		set->type |= ST_SPECIAL;
-		set->trie_special[rtag].terminal = true;
+		trie_insert(set->trie_special, TagVector{ rtag });
 	}
 	else {
-		set->trie[rtag].terminal = true;
+		trie_insert(set->trie, TagVector{ rtag });
 	}
 }
 
-- 
2.43.0


From de8ee941834bff5731f948c6f9ea2fcfe1763a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 09/69] fix: an IFF that acted as SELECT on one cohort starts
 over on the next

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 0b8744b..50c66f2 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -381,6 +381,8 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 		++rocit;
 
 		finish_reading_loop = true;
+		// An Iff that became Select on an earlier cohort starts over
+		type = rule.type;
 
 		if (debug_level > 1) {
 			std::cerr << "DEBUG: Trying cohort " << cohort->global_number << ":" << cohort->local_number << std::endl;
-- 
2.43.0


From f8672cfb6099a59a81795d872bcaa23ec4e33125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 10/69] fix: order cohorts by window before their position in
 it

---
 src/SingleWindow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SingleWindow.hpp b/src/SingleWindow.hpp
index 09b7224..eb65383 100644
--- a/src/SingleWindow.hpp
+++ b/src/SingleWindow.hpp
@@ -62,7 +62,7 @@ SingleWindow* alloc_swindow(Window* p);
 void free_swindow(SingleWindow*& s);
 
 inline bool less_Cohort(const Cohort* a, const Cohort* b) {
-	if (a->local_number == b->local_number) {
+	if (a->parent != b->parent) {
 		return a->parent->number < b->parent->number;
 	}
 	return a->local_number < b->local_number;
-- 
2.43.0


From aa63d4188602601b41ec286bcd1307b8170dda88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 11/69] fix: check template position overrides across windows

---
 src/GrammarApplicator_runContextualTest.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index cd4ae4a..cfd24fd 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -200,12 +200,16 @@ bool GrammarApplicator::posOutputHelper(const SingleWindow* sWindow, size_t posi
 		good = true;
 	}
 	else {
-		// ...otherwise, positive offsets need to match the leftmost of entry/exit
-		if (test->offset > 0 && SI32(cs[0]->local_number) - SI32(position) == test->offset) {
+		// ...otherwise, the position must be the one the offset names, which may be in another window
+		auto named_w = const_cast<SingleWindow*>(sWindow);
+		int32_t named_p = 0;
+		auto named = getCohortInWindow(named_w, position, test, named_p);
+		// ...positive offsets need to match the leftmost of entry/exit
+		if (test->offset > 0 && cs[0] == named) {
 			good = true;
 		}
 		// ...and, negative offsets need to match the rightmost of entry/exit
-		else if (test->offset < 0 && SI32(cs[3]->local_number) - SI32(position) == test->offset) {
+		else if (test->offset < 0 && cs[3] == named) {
 			good = true;
 		}
 	}
@@ -213,10 +217,11 @@ bool GrammarApplicator::posOutputHelper(const SingleWindow* sWindow, size_t posi
 		good = false;
 	}
 	if (!(test->pos & POS_PASS_ORIGIN)) {
-		if (test->offset < 0 && cs[3]->local_number > position) {
+		auto here = make_64(sWindow->number, UI32(position));
+		if (test->offset < 0 && make_64(cs[3]->parent->number, cs[3]->local_number) > here) {
 			good = false;
 		}
-		else if (test->offset > 0 && cs[0]->local_number < position) {
+		else if (test->offset > 0 && make_64(cs[0]->parent->number, cs[0]->local_number) < here) {
 			good = false;
 		}
 	}
-- 
2.43.0


From 5cdf3ed56416b762e217a79dcd947246a3cc9c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 12/69] fix: list the members of a set correctly when composite
 tags share a prefix

---
 src/TagTrie.hpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/TagTrie.hpp b/src/TagTrie.hpp
index 79d5f97..2a25f08 100644
--- a/src/TagTrie.hpp
+++ b/src/TagTrie.hpp
@@ -176,14 +176,14 @@ inline void trie_getTags(const trie_t& trie, TagVectorSet& rv, TagVector& tv) {
 	for (auto& kv : trie) {
 		tv.push_back(kv.first);
 		if (kv.second.terminal) {
-			std::sort(tv.begin(), tv.end(), compare_Tag());
-			rv.insert(tv);
-			tv.pop_back();
-			continue;
+			TagVector sorted(tv);
+			std::sort(sorted.begin(), sorted.end(), compare_Tag());
+			rv.insert(sorted);
 		}
-		if (kv.second.trie) {
+		else if (kv.second.trie) {
 			trie_getTags(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
@@ -193,14 +193,14 @@ inline TagVectorSet trie_getTags(const trie_t& trie) {
 		TagVector tv;
 		tv.push_back(kv.first);
 		if (kv.second.terminal) {
-			std::sort(tv.begin(), tv.end(), compare_Tag());
-			rv.insert(tv);
-			tv.pop_back();
-			continue;
+			TagVector sorted(tv);
+			std::sort(sorted.begin(), sorted.end(), compare_Tag());
+			rv.insert(sorted);
 		}
-		if (kv.second.trie) {
+		else if (kv.second.trie) {
 			trie_getTags(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 	return rv;
 }
@@ -210,12 +210,11 @@ inline void trie_getTagsOrdered(const trie_t& trie, TagVectorSet& rv, TagVector&
 		tv.push_back(kv.first);
 		if (kv.second.terminal) {
 			rv.insert(tv);
-			tv.pop_back();
-			continue;
 		}
-		if (kv.second.trie) {
+		else if (kv.second.trie) {
 			trie_getTagsOrdered(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
@@ -226,12 +225,11 @@ inline TagVectorSet trie_getTagsOrdered(const trie_t& trie) {
 		tv.push_back(kv.first);
 		if (kv.second.terminal) {
 			rv.insert(tv);
-			tv.pop_back();
-			continue;
 		}
-		if (kv.second.trie) {
+		else if (kv.second.trie) {
 			trie_getTagsOrdered(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 	return rv;
 }
-- 
2.43.0


From 54de192b6065770a444f1c1b0d486ecc585612e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 13/69] fix: a barrier that skips the wordform's tags must not
 rule the set out for the cohort

---
 src/GrammarApplicator_matchSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 7b6e5d9..88909a7 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1012,7 +1012,9 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 	if (context && !context->matched_target && !(context->options & (POS_ACTIVE | POS_INACTIVE))) {
 		if (!grammar->sets_any || set >= grammar->sets_any->size() || !grammar->sets_any->test(set)) {
 			bool was_sub = (context->test && (context->test->offset_sub != 0));
-			if (!was_sub && set < cohort.possible_sets.size()) {
+			// Barriers didn't look at the tags of the wordform itself
+			bool was_partial = (context->in_barrier && cohort.wread);
+			if (!was_sub && !was_partial && set < cohort.possible_sets.size()) {
 				cohort.possible_sets.reset(set);
 			}
 		}
-- 
2.43.0


From a2f0da2df190fb7237509f646071f7ee3b855288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 14/69] fix: override a copy of a template, not the test others
 may share

---
 src/GrammarApplicator_runContextualTest.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index cfd24fd..47ddde3 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -237,11 +237,12 @@ Cohort* GrammarApplicator::runContextualTest_tmpl(SingleWindow* sWindow, size_t
 		tmpl_cntx.linked.push_back(test->linked);
 	}
 
-	uint64_t orgpos = tmpl->pos;
-	int32_t orgoffset = tmpl->offset;
-	uint32_t orgcbar = tmpl->cbarrier;
-	uint32_t orgbar = tmpl->barrier;
+	// Override a copy, because the same test may also be in use elsewhere in the chain
+	ContextualTest overridden;
 	if (test->pos & POS_TMPL_OVERRIDE) {
+		copy_cntx(tmpl, &overridden);
+		overridden.ors = tmpl->ors;
+		tmpl = &overridden;
 		tmpl->pos = test->pos;
 		tmpl->pos &= ~(POS_NEGATE | POS_NOT | POS_JUMP);
 		tmpl->offset = test->offset;
@@ -257,10 +258,6 @@ Cohort* GrammarApplicator::runContextualTest_tmpl(SingleWindow* sWindow, size_t
 	}
 	Cohort* cohort = runContextualTest(sWindow, position, tmpl, &cdeep, origin);
 	if (test->pos & POS_TMPL_OVERRIDE) {
-		tmpl->pos = orgpos;
-		tmpl->offset = orgoffset;
-		tmpl->cbarrier = orgcbar;
-		tmpl->barrier = orgbar;
 		if (cohort && cdeep && test->offset != 0 && !posOutputHelper(sWindow, position, test, cohort, cdeep)) {
 			cohort = nullptr;
 		}
-- 
2.43.0


From a518d6c06ac8f763036ff21344783a90c9313a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 15/69] fix: hash the nesting of composite tags so different
 sets do not collide

---
 src/TagTrie.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TagTrie.hpp b/src/TagTrie.hpp
index 2a25f08..3bec27f 100644
--- a/src/TagTrie.hpp
+++ b/src/TagTrie.hpp
@@ -100,7 +100,8 @@ inline uint32_t trie_rehash(const trie_t& trie) {
 	for (auto& kv : trie) {
 		retval = hash_value(kv.first->hash, retval);
 		if (kv.second.trie) {
-			retval = hash_value(trie_rehash(*kv.second.trie), retval);
+			// hash_value(uint32_t) is linear, so without this differently nested tries of the same tags cancel out
+			retval = hash_value(hash_value(UI64(trie_rehash(*kv.second.trie))), retval);
 		}
 	}
 	return retval;
-- 
2.43.0


From 85bc4dd57cc409783d796300d020ffbe8514e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 16/69] fix: recompute a cohort's MIN/MAX after its readings
 changed

The cached minimum and maximum of numeric tags was only invalidated when the
window was reindexed, so <X=MAX> after a SELECT, REMOVE, RESTORE or a rewrite
of a reading in the same pass was still judged against the readings that
were there before.
---
 src/GrammarApplicator_reflow.cpp   | 2 ++
 src/GrammarApplicator_runRules.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index aa9c194..ca0d1be 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -341,6 +341,8 @@ void GrammarApplicator::reflowReading(Reading& reading) {
 	reading.mapping = nullptr;
 	reading.tags_string.clear();
 
+	reading.parent->type &= ~CT_NUM_CURRENT;
+
 	insert_if_exists(reading.parent->possible_sets, grammar->sets_any);
 
 	Reading::tags_list_t tlist;
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 50c66f2..9df5341 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1389,6 +1389,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					else {
 						target->deleted.insert(target->deleted.end(), drop.begin(), drop.end());
 					}
+					target->type &= ~CT_NUM_CURRENT;
 					readings_changed = true;
 				}
 				selected.clear();
@@ -1417,6 +1418,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						removed.pop_back();
 					}
 					get_apply_to().cohort->readings.resize(oz);
+					get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
 					if (debug_level > 0) {
 						std::cerr << "DEBUG: Rule " << rule->line << " hit cohort " << get_apply_to().cohort->local_number << std::endl;
 					}
@@ -1903,6 +1905,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				if (did_restore) {
+					get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
 					TRACE;
 				}
 				finish_reading_loop = false;
-- 
2.43.0


From f093bdea44421c6c8f38c9be9cf4ce61c27bda9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 17/69] fix: <.*>r matches textual tags only

tags_textual also holds the plain tags that some other regular expression or
case-insensitive tag of the grammar matches, so whether <.*>r matched a plain
tag depended on unrelated tags of the grammar.
---
 src/GrammarApplicator_matchSet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 88909a7..4ac79ce 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -452,7 +452,8 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		else {
 			for (auto mter : reading.tags_textual) {
 				const Tag& itag = *(grammar->single_tags.find(mter)->second);
-				if (!(itag.type & (T_BASEFORM | T_WORDFORM))) {
+				// Tags that some other regex or case-insensitive tag matches are in tags_textual too, but are not textual in themselves
+				if (!(itag.type & (T_BASEFORM | T_WORDFORM)) && is_textual(itag.tag)) {
 					match = itag.hash;
 					if (unif_mode) {
 						if (unif_last_textual) {
-- 
2.43.0


From 5f31f42f1a7955737bbdd7ba9a6bad8240f55b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 18/69] fix: try every variable that a VAR: pattern matches

Where the name of a VAR: tag is a regular expression or case-insensitive,
only the value of the first matching variable in hash order was checked.
---
 src/GrammarApplicator_matchSet.cpp | 41 +++++++++++++++---------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 4ac79ce..345ef62 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -493,36 +493,35 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		auto kit = grammar->single_tags.find(tag.comparison_hash);
 		if (kit != grammar->single_tags.end()) {
 			auto key = kit->second;
+			auto value_matches = [&](uint32_t value) {
+				if (tag.variable_hash == 0) {
+					return true;
+				}
+				auto comp = grammar->single_tags.find(tag.variable_hash)->second;
+				if (comp->type & T_REGEXP) {
+					return doesTagMatchRegexp(value, *comp, bypass_index) != 0;
+				}
+				if (comp->type & T_CASE_INSENSITIVE) {
+					return doesTagMatchIcase(value, *comp, bypass_index) != 0;
+				}
+				return comp->hash == value;
+			};
+			// A pattern may match several variables, and any of them may have the value
 			auto it = vars.begin();
 			if (key->type & T_REGEXP) {
-				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchRegexp(kv.first, *key, bypass_index); });
+				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchRegexp(kv.first, *key, bypass_index) && value_matches(kv.second); });
 			}
 			else if (key->type & T_CASE_INSENSITIVE) {
-				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchIcase(kv.first, *key, bypass_index); });
+				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchIcase(kv.first, *key, bypass_index) && value_matches(kv.second); });
 			}
 			else {
 				it = vars.find(tag.comparison_hash);
+				if (it != vars.end() && !value_matches(it->second)) {
+					it = vars.end();
+				}
 			}
 			if (it != vars.end()) {
-				if (tag.variable_hash == 0) {
-					match = tag.hash;
-				}
-				else {
-					auto comp = grammar->single_tags.find(tag.variable_hash)->second;
-					if (comp->type & T_REGEXP) {
-						if (doesTagMatchRegexp(it->second, *comp, bypass_index)) {
-							match = tag.hash;
-						}
-					}
-					else if (comp->type & T_CASE_INSENSITIVE) {
-						if (doesTagMatchIcase(it->second, *comp, bypass_index)) {
-							match = tag.hash;
-						}
-					}
-					else if (comp->hash == it->second) {
-						match = tag.hash;
-					}
-				}
+				match = tag.hash;
 			}
 		}
 	}
-- 
2.43.0


From a9a213f2eab317aec1a41d726a65c99ce96f944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 19/69] fix: a SET: tag that names no static set matches
 nothing

The name may come from a varstring, such as VSTR:SET:@$1, so it can name
a set that does not exist or is not listed in STATIC-SETS at runtime. That
dereferenced the end iterator.
---
 src/GrammarApplicator_matchSet.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 345ef62..46987f8 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -380,8 +380,10 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 	}
 	else if (tag.type & T_SET) {
 		uint32_t sh = hash_value(tag.tag);
-		sh = grammar->sets_by_name.find(sh)->second;
-		match = doesSetMatchReading(reading, sh, bypass_index, unif_mode);
+		auto sit = grammar->sets_by_name.find(sh);
+		if (sit != grammar->sets_by_name.end()) {
+			match = doesSetMatchReading(reading, sit->second, bypass_index, unif_mode);
+		}
 	}
 	else if (tag.type & T_VARSTRING) {
 		const Tag* nt = generateVarstringTag(&tag);
-- 
2.43.0


From cf87db331311885e8ac54b5ba5d1f6ae6e7aaa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 20/69] fix: do not split off a reading for the mapping tag the
 reading keeps

---
 src/GrammarApplicator_reflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index ca0d1be..6e2224b 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -629,7 +629,7 @@ void GrammarApplicator::splitMappings(TagList& mappings, Cohort& cohort, Reading
 	size_t i = mappings.size();
 	for (auto ttag : mappings) {
 		// To avoid duplicating needlessly many times, check for a similar reading in the cohort that's already got this mapping
-		bool found = false;
+		bool found = (ttag->hash == tag->hash);
 		for (auto itr : cohort.readings) {
 			if (itr->hash_plain == reading.hash_plain && itr->mapping && itr->mapping->hash == ttag->hash) {
 				found = true;
-- 
2.43.0


From f18d6c69dbcfae70106ec5c3f6b69ef2c38e2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 21/69] fix: count every element inserted into an
 interval_vector

---
 src/interval_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index 3089415..ff0a00a 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -174,6 +174,7 @@ public:
 	bool insert(T t) {
 		if (elements.empty()) {
 			elements.emplace_back(interval(t));
+			++_size;
 			return true;
 		}
 		auto it = std::lower_bound(elements.begin(), elements.end(), t);
@@ -190,6 +191,7 @@ public:
 			else {
 				elements.insert(it, interval(t));
 			}
+			++_size;
 			return true;
 		}
 		auto pr = it - 1;
-- 
2.43.0


From f95e43fcd50647f62bdbf1d1d7eb44f47bc339f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 22/69] fix: run the rules that --rule names, and only those

---
 src/GrammarApplicator.cpp | 2 +-
 src/cg-proc.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index cc21a37..71e50d3 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -991,7 +991,7 @@ void GrammarApplicator::setOptions(UConverter* conv) {
 
 			for (auto rule : grammar->rule_by_number) {
 				if (rule->name == buf) {
-					valid_rules.push_back(rule->number);
+					valid_rules.push_back(rule->line);
 				}
 			}
 		}
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index 1f7e992..e474d46 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -342,7 +342,7 @@ int main(int argc, char* argv[]) {
 		u_charsToUChars(single_rule.data(), &buf[0], sn);
 		for (auto rule : applicator->grammar->rule_by_number) {
 			if (rule->name == buf) {
-				applicator->valid_rules.push_back(rule->number);
+				applicator->valid_rules.push_back(rule->line);
 			}
 		}
 	}
-- 
2.43.0


From 863fd2901d689e2bd057eb49879de53d9d152f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 23/69] fix: a JUMP past the last active rule skips the
 remaining rules

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 src/TextualParser.cpp              | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 9df5341..8b23707 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2925,6 +2925,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			goto bailout;
 		}
 		if (should_repeat) {
+			// A JUMP to beyond the last active rule skips all of the remaining rules
+			if (iter_rules == iter_rules_end) {
+				break;
+			}
 			goto repeat_rule;
 		}
 
diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 96adfad..d01496b 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -3055,7 +3055,7 @@ int TextualParser::parse_grammar(UString& data) {
 
 	parseFromUChar(&data[4], filename);
 
-	result->addAnchor(keywords[K_END], UI32(result->rule_by_number.size() - 1), true);
+	result->addAnchor(keywords[K_END], UI32(result->rule_by_number.size()), true);
 
 	for (auto it : result->rule_by_number) {
 		if (!it->name.empty()) {
-- 
2.43.0


From edea3485bd60ab51b5bea25a59da2d5d06d48994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 24/69] fix: find the rules that --rule names

---
 src/GrammarApplicator.cpp | 3 ++-
 src/cg-proc.cpp           | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 71e50d3..73c3c64 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -987,7 +987,8 @@ void GrammarApplicator::setOptions(UConverter* conv) {
 			auto sn = options[RULE].value.size();
 			UString buf(sn * 3, 0);
 			ucnv_reset(conv);
-			ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status);
+			auto len = ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status);
+			buf.resize(len);
 
 			for (auto rule : grammar->rule_by_number) {
 				if (rule->name == buf) {
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index e474d46..0c69c49 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -338,7 +338,7 @@ int main(int argc, char* argv[]) {
 	// This is if we want to run a single rule  (-r option)
 	if (!single_rule.empty()) {
 		auto sn = SI32(single_rule.size());
-		UString buf(sn * 3, 0);
+		UString buf(sn, 0);
 		u_charsToUChars(single_rule.data(), &buf[0], sn);
 		for (auto rule : applicator->grammar->rule_by_number) {
 			if (rule->name == buf) {
-- 
2.43.0


From bc0459fa3055b0d67852473186cad1bb0589a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 25/69] fix: unify the members of a SET of single tags that
 became a LIST

---
 src/GrammarApplicator_matchSet.cpp |  7 ++++---
 src/GrammarApplicator_runRules.cpp |  2 +-
 src/parser_helpers.hpp             | 22 ++++++++++++++++++++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 46987f8..6b34a14 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -749,9 +749,10 @@ bool GrammarApplicator::doesSetMatchReading(const Reading& reading, const uint32
 		auto& usets = (*context_stack.back().unif_sets)[theset.number];
 		if (usets.empty()) {
 			const Set& uset = *grammar->sets_list[theset.sets[0]];
-			const size_t size = uset.sets.size();
-			for (size_t i = 0; i < size; ++i) {
-				const Set& tset = *grammar->sets_list[uset.sets[i]];
+			// If it is a LIST then its members follow it
+			const auto& subs = uset.sets.empty() ? theset.sets : uset.sets;
+			for (size_t i = uset.sets.empty() ? 1 : 0; i < subs.size(); ++i) {
+				const Set& tset = *grammar->sets_list[subs[i]];
 				if (doesSetMatchReading(reading, tset.number, bypass_index, ((theset.type & ST_TAG_UNIFY) != 0) | unif_mode)) {
 					usets.insert(tset.number);
 				}
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 8b23707..df9e196 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -152,7 +152,7 @@ void GrammarApplicator::getTagList(const Set& theSet, TagList& theTags, bool uni
 	if (theSet.type & ST_SET_UNIFY) {
 		const auto& usets = (*context_stack.back().unif_sets)[theSet.number];
 		const Set& pSet = *(grammar->sets_list[theSet.sets[0]]);
-		for (auto iter : pSet.sets) {
+		for (auto iter : (pSet.sets.empty() ? theSet.sets : pSet.sets)) {
 			if (usets.count(iter)) {
 				getTagList(*(grammar->sets_list[iter]), theTags);
 			}
diff --git a/src/parser_helpers.hpp b/src/parser_helpers.hpp
index 4667978..8d66a32 100644
--- a/src/parser_helpers.hpp
+++ b/src/parser_helpers.hpp
@@ -462,6 +462,28 @@ Set* parseSet(const UChar* name, const UChar* p, State& state) {
 			}
 			else if (name[0] == '&' && name[1] == '&') {
 				ns->type |= ST_SET_UNIFY;
+				if (wtmp->sets.empty()) {
+					// addSet() turns a SET that is only single tags OR'ed together into a LIST, so make each member a sub-set again
+					TagVectorSet members;
+					state.get_grammar()->getTags(*wtmp, members);
+					for (auto& tv : members) {
+						Set* ms = state.get_grammar()->allocateSet();
+						ms->line = state.get_grammar()->lines;
+						ms->setName();
+						if (tv.size() == 1) {
+							state.get_grammar()->addTagToSet(tv[0], ms);
+						}
+						else if (std::any_of(tv.begin(), tv.end(), [](Tag* t) { return (t->type & T_SPECIAL) != 0; })) {
+							trie_insert(ms->trie_special, tv);
+						}
+						else {
+							trie_insert(ms->trie, tv);
+						}
+						state.get_grammar()->addSet(ms);
+						ns->sets.push_back(ms->hash);
+						ns->set_ops.push_back(S_OR);
+					}
+				}
 			}
 			state.get_grammar()->addSet(ns);
 		}
-- 
2.43.0


From e724c670ac273cef7484a982081a29b955d744fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 26/69] fix: keep the text before a %u or %l with nothing after
 it

---
 src/GrammarApplicator_reflow.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 6e2224b..949c8ab 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -423,7 +423,9 @@ Tag* GrammarApplicator::generateVarstringTag(const Tag* tag) {
 			if (mode == 'u') {
 				UnicodeString range(tmp, mpos, 1);
 				range.toUpper();
-				tmp.setCharAt(mpos, range[0]);
+				if (mpos < tmp.length()) {
+					tmp.setCharAt(mpos, range[0]);
+				}
 			}
 			else if (mode == 'U') {
 				UnicodeString range(tmp, mpos);
@@ -434,7 +436,9 @@ Tag* GrammarApplicator::generateVarstringTag(const Tag* tag) {
 			else if (mode == 'l') {
 				UnicodeString range(tmp, mpos, 1);
 				range.toLower();
-				tmp.setCharAt(mpos, range[0]);
+				if (mpos < tmp.length()) {
+					tmp.setCharAt(mpos, range[0]);
+				}
 			}
 			else if (mode == 'L') {
 				UnicodeString range(tmp, mpos);
-- 
2.43.0


From 776e7fde56a7e4f7eda8af27f5c72657c1ac1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 27/69] fix: try the cohort after a merged one as well

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index df9e196..bc091d5 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -537,7 +537,7 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			} else {
 				rocit = cohortset->find_n(*lb);
 			}
-			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size()) {
+			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size() && cohortset->at(rocit) == gac) {
 				++rocit;
 			}
 		};
-- 
2.43.0


From 05b4f2068db25eec4f6b0dce4c60a33f3bb1855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 28/69] fix: do not make removed cohorts children of a merged
 one

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index bc091d5..3f8df29 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1120,7 +1120,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 				}
 				for (auto c : current.all_cohorts) {
-					if (ps.count(c->dep_parent)) {
+					if (!(c->type & CT_REMOVED) && ps.count(c->dep_parent)) {
 						attachParentChild(*cCohort, *c);
 					}
 					for (auto& riter : c->relations) {
-- 
2.43.0


From e62da933a0ab3a185cb98bfdf725a03988a0b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 29/69] fix: do not look past the end of the window after
 removing its last cohort

---
 src/GrammarApplicator_runRules.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 3f8df29..63521bf 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -531,6 +531,11 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			override_cohortset();
 			cohortsets.back() = cohortset;
 			auto gac = get_apply_to().cohort;
+			if (gac->local_number >= current.cohorts.size()) {
+				// The last cohorts of the window were removed, so nothing follows
+				rocit = cohortset->size();
+				return;
+			}
 			auto lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
 			if (lb == cohortset->end()) {
 				rocit = cohortset->size();
-- 
2.43.0


From 9ba28e86460bf2d52fa543bf24a85dcd51295ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 30/69] fix: SWITCHPARENT leaves the target itself and parents
 that are gone alone

---
 src/GrammarApplicator_runRules.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 63521bf..5ab5074 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2697,11 +2697,16 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				// collect cohorts
 				Cohort* child = get_apply_to().cohort;
-				Cohort* parent = current.parent->cohort_map[child->dep_parent];
+				auto pit = current.parent->cohort_map.find(child->dep_parent);
+				if (pit == current.parent->cohort_map.end()) {
+					// The parent was in a window that is already gone
+					return;
+				}
+				Cohort* parent = pit->second;
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-					if (iter->dep_parent == parent->global_number && doesSetMatchCohortNormal(*iter, rule->childset1)) {
+					if (iter != child && iter->dep_parent == parent->global_number && doesSetMatchCohortNormal(*iter, rule->childset1)) {
 						siblings.insert(iter);
 					}
 				}
-- 
2.43.0


From 2e1ef165a50c0f76b3a16ffff26edff313b67aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 31/69] fix: a parent given as 0 is the beginning of the window
 in loop checks of every window

---
 src/GrammarApplicator_reflow.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 949c8ab..4a46bf2 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -45,13 +45,18 @@ Tag* GrammarApplicator::makeBaseFromWord(Tag* tag) {
 	return nt;
 }
 
+// Input may name the start of the window as parent 0, no matter which number that cohort has
+static bool isParentOf(const Cohort* parent, const Cohort* child) {
+	return child->dep_parent == parent->global_number || (child->dep_parent == 0 && child->parent && child->parent->cohorts.front() == parent);
+}
+
 bool GrammarApplicator::isChildOf(const Cohort* child, const Cohort* parent) {
 	bool retval = false;
 
 	if (parent->global_number == child->global_number) {
 		retval = true;
 	}
-	else if (parent->global_number == child->dep_parent) {
+	else if (isParentOf(parent, child)) {
 		retval = true;
 	}
 	else {
@@ -68,7 +73,7 @@ bool GrammarApplicator::isChildOf(const Cohort* child, const Cohort* parent) {
 			else {
 				break;
 			}
-			if (inner->dep_parent == parent->global_number) {
+			if (isParentOf(parent, inner)) {
 				retval = true;
 				break;
 			}
@@ -91,13 +96,13 @@ bool GrammarApplicator::wouldParentChildLoop(const Cohort* parent, const Cohort*
 	if (parent->global_number == child->global_number) {
 		retval = true;
 	}
-	else if (parent->global_number == child->dep_parent) {
+	else if (isParentOf(parent, child)) {
 		retval = false;
 	}
 	else if (parent->global_number == parent->dep_parent) {
 		retval = false;
 	}
-	else if (parent->dep_parent == child->global_number) {
+	else if (isParentOf(child, parent)) {
 		retval = true;
 	}
 	else {
@@ -114,7 +119,7 @@ bool GrammarApplicator::wouldParentChildLoop(const Cohort* parent, const Cohort*
 			else {
 				break;
 			}
-			if (inner->dep_parent == child->global_number) {
+			if (isParentOf(child, inner)) {
 				retval = true;
 				break;
 			}
-- 
2.43.0


From f5dd2c9e422b4146849a1193e0d0c57407a33456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 32/69] fix: grammars with only cc tests, REMPARENT, or
 SWITCHPARENT use dependencies too

---
 src/TextualParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index d01496b..90b3a83 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -953,7 +953,7 @@ ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bo
 		pos_p = p;
 		parseContextualTestPosition(p, *t);
 		p = n;
-		if (t->pos & (POS_DEP_CHILD | POS_DEP_PARENT | POS_DEP_SIBLING)) {
+		if (t->pos & MASK_POS_DEP) {
 			result->has_dep = true;
 		}
 		if (t->pos & POS_RELATION) {
@@ -1546,7 +1546,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 			rule->dep_tests.pop_back();
 		}
 	}
-	if (key == K_SETPARENT || key == K_SETCHILD || key == K_SPLITCOHORT || key == K_MERGECOHORTS) {
+	if (key == K_SETPARENT || key == K_SETCHILD || key == K_REMPARENT || key == K_SWITCHPARENT || key == K_SPLITCOHORT || key == K_MERGECOHORTS) {
 		result->has_dep = true;
 	}
 	if (key == K_SETRELATION || key == K_SETRELATIONS || key == K_ADDRELATION || key == K_ADDRELATIONS || key == K_REMRELATION || key == K_REMRELATIONS || key == K_MERGECOHORTS) {
-- 
2.43.0


From 933c558ce76b23846386e472fd7699b7c888355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 33/69] fix: pp tests end when the parents in another window
 form a loop

---
 src/CohortIterator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CohortIterator.cpp b/src/CohortIterator.cpp
index 38c2cf7..2391595 100644
--- a/src/CohortIterator.cpp
+++ b/src/CohortIterator.cpp
@@ -265,11 +265,16 @@ void DepAncestorIter::reset(Cohort* cohort, const ContextualTest* test, bool spa
 	m_cohort = nullptr;
 
 	if (cohort && test) {
+		CohortSet seen;
 		for (Cohort* current = cohort; current;) {
 			if (cohort->parent->parent->cohort_map.find(current->dep_parent) == cohort->parent->parent->cohort_map.end()) {
 				break;
 			}
 			current = cohort->parent->parent->cohort_map.find(current->dep_parent)->second;
+			// If insertion fails, we've come around in a loop, so don't continue looping
+			if (!seen.insert(current).second) {
+				break;
+			}
 			bool good = true;
 			if (current->parent != cohort->parent) {
 				if ((!(test->pos & (POS_SPAN_BOTH | POS_SPAN_LEFT))) && current->parent->number < cohort->parent->number) {
@@ -280,10 +285,7 @@ void DepAncestorIter::reset(Cohort* cohort, const ContextualTest* test, bool spa
 				}
 			}
 			if (good) {
-				// If insertion fails, we've come around in a loop, so don't continue looping
-				if (!m_ancestors.insert(current).second) {
-					break;
-				}
+				m_ancestors.insert(current);
 			}
 		}
 
-- 
2.43.0


From e4cb316b4981f20f6c8f0b7d7374297ca260d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 34/69] fix: cohorts of the last window before a flush get
 their relations when those of other windows do

---
 src/GrammarApplicator_reflow.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 4a46bf2..2885fe8 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -296,10 +296,6 @@ void GrammarApplicator::reflowDependencyWindow(uint32_t max) {
 }
 
 void GrammarApplicator::reflowRelationWindow(uint32_t max) {
-	if (!max && !input_eof && !gWindow->next.empty() && gWindow->next.back()->cohorts.size() > 1) {
-		max = gWindow->next.back()->cohorts[0]->global_number;
-	}
-
 	Cohort* cohort = gWindow->current->cohorts[1];
 	while (cohort->prev) {
 		cohort = cohort->prev;
-- 
2.43.0


From 329a4075c80b11a551c49c6d91f1df40ac430fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 35/69] fix: freeing a window forgets the IDs of its own
 cohorts and of no others

---
 src/SingleWindow.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SingleWindow.cpp b/src/SingleWindow.cpp
index 1df3839..0ca1583 100644
--- a/src/SingleWindow.cpp
+++ b/src/SingleWindow.cpp
@@ -60,7 +60,8 @@ SingleWindow::~SingleWindow() {
 
 	if (cohorts.size() > 1) {
 		for (auto iter = parent->relation_map.begin(); iter != parent->relation_map.end();) {
-			if (iter->second <= cohorts.back()->global_number) {
+			auto cit = parent->cohort_map.find(iter->second);
+			if (cit == parent->cohort_map.end() || cit->second->parent == this) {
 				iter = parent->relation_map.erase(iter);
 			}
 			else {
@@ -89,7 +90,8 @@ SingleWindow::~SingleWindow() {
 void SingleWindow::clear() {
 	if (cohorts.size() > 1) {
 		for (auto iter = parent->relation_map.begin(); iter != parent->relation_map.end();) {
-			if (iter->second <= cohorts.back()->global_number) {
+			auto cit = parent->cohort_map.find(iter->second);
+			if (cit == parent->cohort_map.end() || cit->second->parent == this) {
 				iter = parent->relation_map.erase(iter);
 			}
 			else {
-- 
2.43.0


From a649d677e637c0c03411e0d1f86a1739e2a33ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:00 +0000
Subject: [PATCH 36/69] fix: cohorts of a window emptied by REMCOHORT belong to
 the window that takes them over

---
 src/GrammarApplicator_runRules.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 5ab5074..087b1e0 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1221,10 +1221,16 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				free_cohort(cohort);
 
 				if (current.previous) {
+					for (auto iter = current.all_cohorts.begin() + 1; iter != current.all_cohorts.end(); ++iter) {
+						(*iter)->parent = current.previous;
+					}
 					current.previous->text += current.text + current.text_post;
 					current.previous->all_cohorts.insert(current.previous->all_cohorts.end(), current.all_cohorts.begin() + 1, current.all_cohorts.end());
 				}
 				else if (current.next) {
+					for (auto iter = current.all_cohorts.begin() + 1; iter != current.all_cohorts.end(); ++iter) {
+						(*iter)->parent = current.next;
+					}
 					current.next->text = current.text_post + current.next->text;
 					current.next->all_cohorts.insert(current.next->all_cohorts.begin() + 1, current.all_cohorts.begin() + 1, current.all_cohorts.end());
 				}
-- 
2.43.0


From bfadad33a337ab578847506043da802d0a6844c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 37/69] fix: a window whose cohorts were all removed forgets
 their IDs too

---
 src/SingleWindow.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SingleWindow.cpp b/src/SingleWindow.cpp
index 0ca1583..ce6baa1 100644
--- a/src/SingleWindow.cpp
+++ b/src/SingleWindow.cpp
@@ -58,7 +58,7 @@ SingleWindow::~SingleWindow() {
 	std::cerr << "OBJECT: " << VOIDP(this) << " " << __PRETTY_FUNCTION__ << ": " << cohorts.size() << std::endl;
 	#endif
 
-	if (cohorts.size() > 1) {
+	if (all_cohorts.size() > 1) {
 		for (auto iter = parent->relation_map.begin(); iter != parent->relation_map.end();) {
 			auto cit = parent->cohort_map.find(iter->second);
 			if (cit == parent->cohort_map.end() || cit->second->parent == this) {
@@ -88,7 +88,7 @@ SingleWindow::~SingleWindow() {
 }
 
 void SingleWindow::clear() {
-	if (cohorts.size() > 1) {
+	if (all_cohorts.size() > 1) {
 		for (auto iter = parent->relation_map.begin(); iter != parent->relation_map.end();) {
 			auto cit = parent->cohort_map.find(iter->second);
 			if (cit == parent->cohort_map.end() || cit->second->parent == this) {
-- 
2.43.0


From 47f97d98a23b2db7da2839fd6854c40f98e0be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:46 +0000
Subject: [PATCH 38/69] fix: a negative sub-reading depth beyond the chain
 names no sub-reading

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 087b1e0..d02a44f 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -256,7 +256,7 @@ Reading* GrammarApplicator::get_sub_reading(Reading* tr, int sub_reading) {
 			ttr = ttr->next;
 			--ntr;
 		}
-		if (!tr->next) {
+		if (!tr->next || sub_reading < ntr) {
 			tr = nullptr;
 		}
 		for (auto i = ntr; i < sub_reading && tr; ++i) {
-- 
2.43.0


From eeeec33ab24916eeb3f4010921d4a353ee1e8eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 39/69] fix: a test of the main readings does not rule out the
 set for their sub-readings

---
 src/GrammarApplicator_matchSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 6b34a14..7e97702 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1017,6 +1017,10 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 			bool was_sub = (context->test && (context->test->offset_sub != 0));
 			// Barriers didn't look at the tags of the wordform itself
 			bool was_partial = (context->in_barrier && cohort.wread);
+			// Nor did the test look at sub-readings, which a test with an offset may want to match
+			for (auto reading : cohort.readings) {
+				was_sub = was_sub || reading->next;
+			}
 			if (!was_sub && !was_partial && set < cohort.possible_sets.size()) {
 				cohort.possible_sets.reset(set);
 			}
-- 
2.43.0


From 68797333385c428b9725b3446d3cf9e98ba14d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:08 +0000
Subject: [PATCH 40/69] fix: L and R are only valid in the window of an active
 enclosure

---
 src/GrammarApplicator_runContextualTest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 47ddde3..098a119 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -781,6 +781,10 @@ Cohort* GrammarApplicator::runDependencyTest(SingleWindow* sWindow, Cohort* curr
 }
 
 Cohort* GrammarApplicator::runParenthesisTest(SingleWindow* sWindow, const Cohort* current, const ContextualTest* test, Cohort** deep, Cohort* origin) {
+	// There must be an active enclosure, which is in the current window
+	if (par_left_pos == 0 || sWindow != gWindow->current) {
+		return 0;
+	}
 	if (current->local_number < par_left_pos || current->local_number > par_right_pos) {
 		return 0;
 	}
-- 
2.43.0


From 3b793a0ab0674b47ac138bd18234d219082c7338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 41/69] fix: a WITH that changes nothing does not hide what it
 changed at an earlier cohort

---
 src/GrammarApplicator_runRules.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index d02a44f..87ad98b 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2902,8 +2902,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 			else if (rule->type == K_WITH) {
 				TRACE;
-				bool any_readings_changed = false;
-				readings_changed = false;
+				bool any_readings_changed = readings_changed;
 				in_nested = true;
 				for (auto& sr : rule->sub_rules) {
 					Rule* cur_was = current_rule;
-- 
2.43.0


From 2f1279d3bab23fbcb87defe9dfb76c404b177a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 42/69] fix: every level of nested WITHs has cohorts of its
 own, and a context that found none adds none

---
 src/GrammarApplicator_runRules.cpp | 21 +++++++++++++--------
 src/SingleWindow.hpp               |  1 -
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 87ad98b..689d75a 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -348,17 +348,21 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 	const Set& set = *(grammar->sets_list[rule.target]);
 	CohortSet* cohortset = &current.rule_to_cohorts[rule.number];
 
+	// Each level of nesting has its own cohorts, which come from the context of the rule that this one is nested in
+	CohortSet nested_cohorts;
+	const size_t outer_depth = context_stack.size() - 1;
 	auto override_cohortset = [&]() {
 		if (in_nested) {
-			if (!current.nested_rule_to_cohorts) {
-				current.nested_rule_to_cohorts.reset(new CohortSet());
-			}
-			cohortset = current.nested_rule_to_cohorts.get();
+			const auto& outer = context_stack[outer_depth];
+			cohortset = &nested_cohorts;
 			cohortset->clear();
-			cohortset->insert(get_apply_to().cohort);
+			cohortset->insert(outer.attach_to.cohort ? outer.attach_to.cohort : outer.target.cohort);
 			for (auto& t : set.trie_special) {
-				if (t.first->type & T_CONTEXT && t.first->context_ref_pos <= context_stack.back().context.size()) {
-					cohortset->insert(context_stack.back().context[t.first->context_ref_pos - 1]);
+				if (t.first->type & T_CONTEXT && t.first->context_ref_pos <= outer.context.size()) {
+					// A context that matched by not finding anything has no cohort
+					if (auto c = outer.context[t.first->context_ref_pos - 1]) {
+						cohortset->insert(c);
+					}
 				}
 			}
 		}
@@ -2903,6 +2907,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			else if (rule->type == K_WITH) {
 				TRACE;
 				bool any_readings_changed = readings_changed;
+				const bool was_nested = in_nested;
 				in_nested = true;
 				for (auto& sr : rule->sub_rules) {
 					Rule* cur_was = current_rule;
@@ -2918,7 +2923,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					current_rule = cur_was;
 					rule = rule_was;
 				}
-				in_nested = false;
+				in_nested = was_nested;
 				readings_changed = any_readings_changed;
 				finish_reading_loop = false;
 			}
diff --git a/src/SingleWindow.hpp b/src/SingleWindow.hpp
index eb65383..c5b3d84 100644
--- a/src/SingleWindow.hpp
+++ b/src/SingleWindow.hpp
@@ -45,7 +45,6 @@ public:
 	uint32SortedVector hit_external;
 	std::vector<CohortSet> rule_to_cohorts;
 	// Used by GrammarApplicator::runSingleRule so that it doesn't need to allocate a new one or edit a rule's actual list when applying a subrule of WITH
-	std::unique_ptr<CohortSet> nested_rule_to_cohorts;
 	uint32FlatHashMap variables_set;
 	uint32FlatHashSet variables_rem;
 	uint32SortedVector variables_output;
-- 
2.43.0


From f8a27d468e2e53080944fd06cdea2637a16bfc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 43/69] fix: Try a rule again once something its contexts may
 look at has changed

---
 src/GrammarApplicator_runRules.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 689d75a..463d2bd 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1477,6 +1477,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							current.variables_output.insert(it->first);
 						}
 						variables.erase(it);
+						index_ruleCohort_no.clear();
 						//u_fprintf(ux_stderr, "Info: RemVariable fired for %S.\n", tag->tag.data());
 					}
 				}
@@ -1486,7 +1487,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				auto values = getTagList(*rule->sublist);
 				VARSTRINGIFY(names.front());
 				VARSTRINGIFY(values.front());
-				variables[names.front()->hash] = values.front()->hash;
+				auto& value = variables[names.front()->hash];
+				if (value != values.front()->hash) {
+					value = values.front()->hash;
+					index_ruleCohort_no.clear();
+				}
 				if (rule->flags & RF_OUTPUT) {
 					current.variables_output.insert(names.front()->hash);
 				}
@@ -1558,8 +1563,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							iter_rules_end = intersects.end();
 						}
 					}
-					index_ruleCohort_no.clear();
 				}
+				index_ruleCohort_no.clear();
 				readings_changed = true;
 				reset_cohorts_for_loop = true;
 			}
@@ -1585,10 +1590,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			else if (rule->type == K_PROTECT) {
 				TRACE;
 				get_apply_to().subreading->immutable = true;
+				index_ruleCohort_no.clear();
 			}
 			else if (rule->type == K_UNPROTECT) {
 				TRACE;
-				get_apply_to().subreading->immutable = false;
+				if (get_apply_to().subreading->immutable) {
+					get_apply_to().subreading->immutable = false;
+					index_ruleCohort_no.clear();
+				}
 			}
 			else if (rule->type == K_UNMAP) {
 				if (unmapReading(*get_apply_to().subreading, rule->number)) {
@@ -1921,6 +1930,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				if (did_restore) {
 					get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
+					index_ruleCohort_no.clear();
 					TRACE;
 				}
 				finish_reading_loop = false;
@@ -2487,6 +2497,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					reindex(attach->parent);
 					update_endtag(*attach->parent);
 					indexSingleWindow(*attach->parent);
+					index_ruleCohort_no.clear();
 					readings_changed = true;
 					reset_cohorts_for_loop = true;
 				}
@@ -2699,6 +2710,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				finish_reading_loop = false;
 				TRACE;
 				detach_from_parent(*get_apply_to().cohort);
+				index_ruleCohort_no.clear();
 			}
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
@@ -2737,6 +2749,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				for (auto s : siblings) {
 					attachParentChild(*child, *s);
 				}
+				index_ruleCohort_no.clear();
 			}
 			else if (rule->type == K_MOVE_AFTER || rule->type == K_MOVE_BEFORE || rule->type == K_SWITCH) {
 				// this is a per-cohort rule
-- 
2.43.0


From c11528d118cbdd093ae989eb17df79b126d6086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 44/69] fix: RESTORE makes the cohort a candidate again for
 rules that look for what the restored readings have

---
 src/GrammarApplicator_runRules.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 463d2bd..f12140a 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1909,6 +1909,21 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							rl[i]->deleted = false;
 							rl[i]->hit_by.push_back(rule->number);
 							get_apply_to().cohort->readings.push_back(rl[i]);
+							// The cohort may by now be deemed unable to match sets that look for what the reading has
+							for (auto r = rl[i]; r; r = r->next) {
+								for (auto hash : r->tags) {
+									auto sit = grammar->sets_by_tag.find(hash);
+									if (sit != grammar->sets_by_tag.end()) {
+										auto& possible = get_apply_to().cohort->possible_sets;
+										possible.resize(std::max(possible.size(), sit->second.size()));
+										possible |= sit->second;
+									}
+									if (updateValidRules(rules, intersects, hash, *r)) {
+										iter_rules = intersects.find(rule->number);
+										iter_rules_end = intersects.end();
+									}
+								}
+							}
 							rl.erase(rl.begin() + i);
 							did_restore = true;
 						}
-- 
2.43.0


From 8f5512fa54f8bef68ce230fa33a0e90b10435417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:55 +0000
Subject: [PATCH 45/69] fix: A rule isn't run twice on a cohort because an
 earlier cohort became a candidate for it

---
 src/GrammarApplicator_runRules.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index f12140a..8e62680 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -78,7 +78,6 @@ bool GrammarApplicator::updateRuleToCohorts(Cohort& c, const uint32_t& rsit) {
 		csi.push_back(i);
 	}
 	if (!csi.empty()) {
-		auto cap = cohortset.capacity();
 		std::vector<size_t*> ends;
 		std::vector<std::pair<size_t*,Cohort*>> chs;
 		for (size_t i = 0; i < csi.size(); ++i) {
@@ -93,10 +92,8 @@ bool GrammarApplicator::updateRuleToCohorts(Cohort& c, const uint32_t& rsit) {
 		for (auto it : ends) {
 			*it = cohortset.size();
 		}
-		if (cap != cohortset.capacity()) {
-			for (auto& it : chs) {
-				*it.first = cohortset.find_n(it.second);
-			}
+		for (auto& it : chs) {
+			*it.first = cohortset.find_n(it.second);
 		}
 	}
 	else {
-- 
2.43.0


From a65a0d46eba9f3c07d3bf4020fe2d3b52c49a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:16 +0000
Subject: [PATCH 46/69] fix: after a new candidate for the rule, carry on after
 the cohort being processed

---
 src/GrammarApplicator_runRules.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 8e62680..229eafb 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -78,22 +78,17 @@ bool GrammarApplicator::updateRuleToCohorts(Cohort& c, const uint32_t& rsit) {
 		csi.push_back(i);
 	}
 	if (!csi.empty()) {
-		std::vector<size_t*> ends;
-		std::vector<std::pair<size_t*,Cohort*>> chs;
+		// Carry on after the cohorts being processed, wherever the new one ends up
+		std::vector<std::pair<size_t*, Cohort*>> chs;
 		for (size_t i = 0; i < csi.size(); ++i) {
-			if (*rocits[csi[i]] >= cohortset.size()) {
-				ends.push_back(rocits[csi[i]]);
-			}
-			else {
-				chs.push_back(std::pair(rocits[csi[i]], cohortset.at(*rocits[csi[i]])));
+			size_t* rocit = rocits[csi[i]];
+			if (rocit && *rocit && *rocit <= cohortset.size()) {
+				chs.push_back(std::pair(rocit, cohortset.at(*rocit - 1)));
 			}
 		}
 		cohortset.insert(&c);
-		for (auto it : ends) {
-			*it = cohortset.size();
-		}
 		for (auto& it : chs) {
-			*it.first = cohortset.find_n(it.second);
+			*it.first = cohortset.find_n(it.second) + 1;
 		}
 	}
 	else {
-- 
2.43.0


From 76fa797d8aa5792fd1fea652b493a5b486ef5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 47/69] fix: --profile and --debug-rules do not reorder the
 readings they show

---
 src/GrammarApplicator.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 73c3c64..16d1c7d 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -531,6 +531,16 @@ void GrammarApplicator::printCohort(Cohort* cohort, std::ostream& output, bool p
 		}
 	}
 
+	if (profiling) {
+		// Rules are still being run on this cohort, so leave the order of its readings alone
+		auto sorted = cohort->readings;
+		std::sort(sorted.begin(), sorted.end(), Reading::cmp_number);
+		for (auto rter1 : sorted) {
+			printReading(rter1, output);
+		}
+		goto removed;
+	}
+
 	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
 	for (auto rter1 : cohort->readings) {
 		printReading(rter1, output);
-- 
2.43.0


From 9b3f64cc0b8a074644ca005b3e27b0d74f07cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:28 +0000
Subject: [PATCH 48/69] fix: always forget what &&-sets bound in a test that
 failed

---
 src/GrammarApplicator_matchSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 7e97702..b326d80 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -936,7 +936,7 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && (utags->size() != context_stack.back().unif_tags->size() || *utags != *context_stack.back().unif_tags)) {
 		context_stack.back().unif_tags->swap(utags);
 	}
-	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && usets->size() != context_stack.back().unif_sets->size()) {
+	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
 		context_stack.back().unif_sets->swap(usets);
 	}
 	if (!retval && !context_stack.empty()) {
-- 
2.43.0


From ef6ee99e8ff05df62181e9b0cec9674139b38c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:39 +0000
Subject: [PATCH 49/69] fix: where the expression of a numeric tag starts was
 lost in a binary grammar

---
 src/BinaryGrammar_read.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BinaryGrammar_read.cpp b/src/BinaryGrammar_read.cpp
index 9d37e63..e3cd5ab 100644
--- a/src/BinaryGrammar_read.cpp
+++ b/src/BinaryGrammar_read.cpp
@@ -176,6 +176,10 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 				t->tag = &gbuffers[0][0];
 			}
 		}
+		if (t->type & T_NUMERIC_MATH) {
+			// Where the expression starts is not stored: It follows <key and the operator
+			t->comparison_offset = UI32(t->tag.find_first_not_of(u"<>=:!", t->tag.find_first_of(u"<>=:!", 1)));
+		}
 
 		if (fields & (1 << 9)) {
 			u32tmp = readBE<uint32_t>(input);
-- 
2.43.0


From 436f5fe9c1dd3c8f7ac368aedc727d77d359857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:49 +0000
Subject: [PATCH 50/69] fix: --grammar-out left out the EXCEPT list of REPLACE

---
 src/GrammarWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index e58b5be..8f8be05 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -313,8 +313,8 @@ void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 		u_fprintf(to, "%S ", rule.maplist->name.data());
 	}
 
-	if (rule.sublist && (rule.type == K_ADDRELATIONS || rule.type == K_SETRELATIONS || rule.type == K_REMRELATIONS || rule.type == K_SETVARIABLE || rule.type == K_COPY || rule.type == K_COPYCOHORT)) {
-		if (rule.type == K_COPY || rule.type == K_COPYCOHORT) {
+	if (rule.sublist && (rule.type == K_ADDRELATIONS || rule.type == K_SETRELATIONS || rule.type == K_REMRELATIONS || rule.type == K_SETVARIABLE || rule.type == K_COPY || rule.type == K_COPYCOHORT || rule.type == K_REPLACE)) {
+		if (rule.type == K_COPY || rule.type == K_COPYCOHORT || rule.type == K_REPLACE) {
 			u_fprintf(to, "EXCEPT ");
 		}
 		u_fprintf(to, "%S ", rule.sublist->name.data());
-- 
2.43.0


From 744c94006584f4615edfcc15a93c4222c094bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:07 +0000
Subject: [PATCH 51/69] fix: --grammar-out left out anchors after the last rule

---
 src/GrammarWriter.cpp | 23 +++++++++++++++--------
 src/GrammarWriter.hpp |  1 +
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index 8f8be05..71e2715 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -246,23 +246,30 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 		}
 	}
 
+	// Anchors that come after the last rule
+	printAnchors(output, UI32(grammar->rule_by_number.size()), UStringView());
+
 	return 0;
 }
 
-void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
-	if (seen_rules.count(rule.number)) {
-		return;
-	}
-	seen_rules.insert(rule.number);
-
-	auto as = anchors.equal_range(rule.number);
+void GrammarWriter::printAnchors(std::ostream& to, uint32_t at, UStringView name) {
+	auto as = anchors.equal_range(at);
 	for (auto ait = as.first; ait != as.second; ++ait) {
 		auto tag = USV(grammar->single_tags.find(ait->second)->second->tag);
-		if (tag == keywords[K_START] || tag == keywords[K_END] || tag == rule.name) {
+		if (tag == keywords[K_START] || tag == keywords[K_END] || tag == name) {
 			continue;
 		}
 		u_fprintf(to, "ANCHOR %S ;\n", tag.data());
 	}
+}
+
+void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
+	if (seen_rules.count(rule.number)) {
+		return;
+	}
+	seen_rules.insert(rule.number);
+
+	printAnchors(to, rule.number, rule.name);
 
 	if (rule.wordform) {
 		printTag(to, *rule.wordform);
diff --git a/src/GrammarWriter.hpp b/src/GrammarWriter.hpp
index a0ae5e4..0b1cb71 100644
--- a/src/GrammarWriter.hpp
+++ b/src/GrammarWriter.hpp
@@ -46,6 +46,7 @@ private:
 
 	void printTag(std::ostream& out, const Tag& tag);
 	void printSet(std::ostream& output, const Set& curset);
+	void printAnchors(std::ostream& to, uint32_t at, UStringView name);
 	void printRule(std::ostream& to, const Rule& rule);
 	void printContextualTest(std::ostream& to, const ContextualTest& test);
 };
-- 
2.43.0


From a3ed2bdff94a98bccd8164070a0565f66073fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:22 +0000
Subject: [PATCH 52/69] fix: an OLIST was written by --grammar-out as a LIST,
 losing the order of its tags

---
 src/TextualParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 90b3a83..bb39f0d 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -2251,6 +2251,9 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				}
 				++p;
 				parseTagList(p, s, ordered);
+				if (ordered) {
+					s->type |= ST_ORDERED;
+				}
 				s->rehash();
 				if (append) {
 					result->appendToSet(s);
-- 
2.43.0


From 2664e0e665b5c16830b82a799f730bef589fe988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:27 +0000
Subject: [PATCH 53/69] fix: templates were missing from --grammar-out of a
 binary grammar

---
 src/BinaryGrammar_read.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BinaryGrammar_read.cpp b/src/BinaryGrammar_read.cpp
index e3cd5ab..ec56877 100644
--- a/src/BinaryGrammar_read.cpp
+++ b/src/BinaryGrammar_read.cpp
@@ -511,6 +511,8 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 	// Bind the templates to where they are used
 	for (const auto& it : deferred_tmpls) {
 		it.first->tmpl = grammar->contexts.find(it.second)->second;
+		// Needed by --grammar-out
+		grammar->templates[it.second] = it.first->tmpl;
 	}
 
 	// Bind the OR'ed contexts to where they are used
-- 
2.43.0


From 5821cc367afa9bd906ba417f2d98a1e6ffe74c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 54/69] fix: a rule on the line that opens its WITH took that
 line for its wordform

---
 src/TextualParser.cpp | 7 +++++++
 src/TextualParser.hpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index bb39f0d..5063a9a 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -1180,6 +1180,10 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 
 	UChar* lp = p;
 	BACKTONL(lp);
+	if (in_nested_rule && lp < nested_begin && nested_begin <= p) {
+		// Don't take the WITH this rule is inside of for its wordform
+		lp = nested_begin;
+	}
 	result->lines += SKIPWS(lp);
 
 	if (lp != p && lp < p) {
@@ -1587,6 +1591,8 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 			++p;
 			bool prev_in_nested_rule = in_nested_rule;
 			Rule* prev_nested_rule = nested_rule;
+			UChar* prev_nested_begin = nested_begin;
+			nested_begin = p;
 			in_nested_rule = true;
 			nested_rule = rule;
 			AST_OPEN(RuleSubrules);
@@ -1604,6 +1610,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 			++p;
 			AST_CLOSE(p);
 			nested_rule = prev_nested_rule;
+			nested_begin = prev_nested_begin;
 			in_nested_rule = prev_in_nested_rule;
 		}
 	}
diff --git a/src/TextualParser.hpp b/src/TextualParser.hpp
index 4a2536d..1de184d 100644
--- a/src/TextualParser.hpp
+++ b/src/TextualParser.hpp
@@ -74,6 +74,7 @@ private:
 	bool safe_setparent = false;
 	bool only_sets = false;
 	Rule* nested_rule = nullptr;
+	UChar* nested_begin = nullptr;
 	const char* filename = nullptr;
 	UChar* cur_grammar = nullptr;
 	uint32_t cur_grammar_n = 0;
-- 
2.43.0


From 912dc2f77e506402556388ac5449aafe013442ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 55/69] fix: --grammar-out kept neither the order of rules
 across sections nor sections without rules

---
 src/GrammarWriter.cpp | 65 +++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index 71e2715..19bd1d4 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -195,52 +195,39 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 	u_fprintf(output, "\n");
 	//*/
 
-	bool found = false;
-	for (auto rule_iter : grammar->rule_by_number) {
-		const Rule& r = *rule_iter;
-		if (r.section == -1) {
-			if (!found) {
-				u_fprintf(output, "\nBEFORE-SECTIONS\n");
-				found = true;
-			}
-			printRule(output, r);
-			u_fprintf(output, " ;\n");
+	// Rules inside WITH are written with the rule they belong to
+	std::set<uint32_t> nested;
+	for (auto r : grammar->rule_by_number) {
+		for (auto s : r->sub_rules) {
+			nested.insert(s->number);
 		}
 	}
-	for (auto isec : grammar->sections) {
-		found = false;
-		for (auto rule_iter : grammar->rule_by_number) {
-			const Rule& r = *rule_iter;
-			if (r.section == SI32(isec)) {
-				if (!found) {
-					u_fprintf(output, "\nSECTION\n");
-					found = true;
-				}
-				printRule(output, r);
-				u_fprintf(output, " ;\n");
-			}
-		}
-	}
-	found = false;
+
+	// Anchors and JUMP depend on the order of the rules across sections, so keep that order
+	int32_t section = std::numeric_limits<int32_t>::min();
+	int32_t last_section = -1;
 	for (auto rule_iter : grammar->rule_by_number) {
 		const Rule& r = *rule_iter;
-		if (r.section == -2) {
-			if (!found) {
+		if (!nested.count(r.number) && r.section != section) {
+			section = r.section;
+			if (section == -1) {
+				u_fprintf(output, "\nBEFORE-SECTIONS\n");
+			}
+			else if (section == -2) {
 				u_fprintf(output, "\nAFTER-SECTIONS\n");
-				found = true;
 			}
-			printRule(output, r);
-			u_fprintf(output, " ;\n");
-		}
-	}
-	found = false;
-	for (auto rule_iter : grammar->rule_by_number) {
-		const Rule& r = *rule_iter;
-		if (r.section == -3) {
-			if (!found) {
+			else if (section == -3) {
 				u_fprintf(output, "\nNULL-SECTION\n");
-				found = true;
 			}
+			else {
+				// Sections without rules still count
+				for (; last_section < section; ++last_section) {
+					u_fprintf(output, "\nSECTION\n");
+				}
+			}
+		}
+		printAnchors(output, r.number, r.name);
+		if (!nested.count(r.number)) {
 			printRule(output, r);
 			u_fprintf(output, " ;\n");
 		}
@@ -269,8 +256,6 @@ void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 	}
 	seen_rules.insert(rule.number);
 
-	printAnchors(to, rule.number, rule.name);
-
 	if (rule.wordform) {
 		printTag(to, *rule.wordform);
 		u_fprintf(to, " ");
-- 
2.43.0


From 896967bebe1de45533ccee462c9529727e16ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:27 +0000
Subject: [PATCH 56/69] fix: names made up by --grammar-out for sets could be
 names the grammar uses

---
 src/GrammarWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index 19bd1d4..9dff984 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -165,8 +165,8 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 				s->name = STR_TEXTDELIMITSET;
 			}
 			else {
-				s->name.resize(12);
-				s->name.resize(u_sprintf(&s->name[0], "S%u", s->number));
+				s->name.resize(16);
+				s->name.resize(u_sprintf(&s->name[0], "CG3_S%u", s->number));
 			}
 		}
 		if (is_internal(s->name)) {
-- 
2.43.0


From 7d691fa80d34d7acaaa2d543326659c32db63597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:30 +0000
Subject: [PATCH 57/69] fix: --grammar-out of a binary grammar lost its
 STATIC-SETS

---
 src/BinaryGrammar_read.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BinaryGrammar_read.cpp b/src/BinaryGrammar_read.cpp
index ec56877..fc4f3a4 100644
--- a/src/BinaryGrammar_read.cpp
+++ b/src/BinaryGrammar_read.cpp
@@ -340,6 +340,9 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 				input.read(&cbuffers[0][0], u32tmp);
 				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
 				s->setName(&gbuffers[0][0]);
+				if (s->type & ST_STATIC) {
+					grammar->static_sets.push_back(s->name);
+				}
 			}
 		}
 		grammar->sets_list[s->number] = s;
-- 
2.43.0


From 3ccf9b4b2174108ea391aac59866b588471c9ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 58/69] fix: --grammar-out of a binary grammar wrote a tag that
 begins with ^ as a fail-fast tag

---
 src/Tag.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Tag.cpp b/src/Tag.cpp
index 1096516..1991e0f 100644
--- a/src/Tag.cpp
+++ b/src/Tag.cpp
@@ -342,6 +342,10 @@ UString Tag::toUString(bool escape) const {
 	}
 
 	if (escape && tag[0] != '"') {
+		// A leading ^ would otherwise be read back as the fail-fast prefix
+		if (tag[0] == '^' && (str.empty() || str == u"^")) {
+			str += '\\';
+		}
 		for (auto c : tag) {
 			if (c == '\\' || c == '(' || c == ')' || c == ';' || c == '#' || c == ' ') {
 				str += '\\';
-- 
2.43.0


From a9f96c77592cadaa901a19046525ff498b15b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:44 +0000
Subject: [PATCH 59/69] fix: let a set excluding a tag match again after that
 tag was removed by UNMAP

---
 src/GrammarApplicator_reflow.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 2885fe8..98e0b07 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -584,6 +584,12 @@ void GrammarApplicator::delTagFromReading(Reading& reading, uint32_t utag) {
 	if (utag == reading.baseform) {
 		reading.baseform = 0;
 	}
+	// Sets that exclude the tag may match now, even if the cohort was deemed unable to match them
+	auto it = grammar->sets_by_tag.find(utag);
+	if (it != grammar->sets_by_tag.end()) {
+		reading.parent->possible_sets.resize(std::max(reading.parent->possible_sets.size(), it->second.size()));
+		reading.parent->possible_sets |= it->second;
+	}
 	reading.rehash();
 	reading.parent->type &= ~CT_NUM_CURRENT;
 }
-- 
2.43.0


From 5cb502686a5a4056d7886e50b9c2efaf0fb0540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:04 +0000
Subject: [PATCH 60/69] fix: match the static tags of cohorts read from JSONL

---
 src/JsonlApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 5f139bf..2260257 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -181,7 +181,7 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 			auto tag_str = json_to_ustring(tag_val);
 			if (!tag_str.empty()) {
 				auto tag = addTag(tag_str);
-				cCohort->wread->tags_list.push_back(tag->hash);
+				addTagToReading(*cCohort->wread, tag);
 			}
 		}
 	}
-- 
2.43.0


From 1903a9de592ae4adce9ecf1b56678d30e60c5847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:15 +0000
Subject: [PATCH 61/69] fix: keep the dependencies of cohorts read from JSONL

---
 src/JsonlApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 2260257..a9c020f 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -211,6 +211,7 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 
 	if (obj.HasMember("ds") && obj["ds"].IsUint()) {
 		cCohort->dep_self = obj["ds"].GetUint();
+		has_dep = true;
 	}
 	if (obj.HasMember("dp") && obj["dp"].IsUint()) {
 		cCohort->dep_parent = obj["dp"].GetUint();
-- 
2.43.0


From 4a20a15c84764b12585dd8e19da1deafb39a2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:27 +0000
Subject: [PATCH 62/69] fix: keep the lines of text that follow cohorts in
 JSONL

---
 src/JsonlApplicator.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index a9c020f..1e87615 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -168,6 +168,9 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 	cCohort->wblank.clear();
 	if (obj.HasMember("z")) {
 		cCohort->text = json_to_ustring(obj["z"]);
+		if (!cCohort->text.empty() && !ISNL(cCohort->text.back())) {
+			cCohort->text += '\n';
+		}
 	}
 
 	// handle static tags ("sts")
@@ -420,6 +423,9 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				}
 				if (lCohort) {
 					lCohort->text += t_ustr;
+					if (!ISNL(lCohort->text.back())) {
+						lCohort->text += '\n';
+					}
 				}
 				else if (lSWindow) {
 					lSWindow->text += t_ustr;
@@ -623,6 +629,9 @@ void JsonlApplicator::buildJsonReading(const Reading* reading, json::Value& read
 
 void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool profiling) {
 	if (cohort->local_number == 0 || (cohort->type & CT_REMOVED)) {
+		if (!cohort->text.empty()) {
+			printPlainTextLine(cohort->text, output);
+		}
 		return;
 	}
 
@@ -676,7 +685,8 @@ void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool pro
 
 	if (!cohort->text.empty()) {
 		auto z_text = cohort->text;
-		if (!z_text.empty() && z_text.back() == u'\n') {
+		// The newline is implied, unless the last line is empty
+		if (z_text.size() > 1 && z_text.back() == u'\n' && z_text[z_text.size() - 2] != u'\n') {
 			z_text.pop_back();
 		}
 		if (!z_text.empty()) {
-- 
2.43.0


From 1ced9bc6d0d04bbf57165d63183edab0da88ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:44 +0000
Subject: [PATCH 63/69] fix: run JSONL windows once, and after the windows they
 may look into were read

---
 src/JsonlApplicator.cpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 1e87615..86b6b34 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -455,6 +455,18 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 
 				++numWindows;
 				lSWindow = cSWindow;
+
+				if (gWindow->next.size() > num_windows + 1) {
+					gWindow->shuffleWindowsDown();
+					runGrammarOnWindow();
+					if (numWindows % resetAfter == 0) {
+						resetIndexes();
+					}
+					if (verbosity_level > 0) {
+						u_fprintf(ux_stderr, "Progress: L:%u, W:%u, C:%u, R:%u\r", numLines, numWindows, numCohorts, numReadings);
+						u_fflush(ux_stderr);
+					}
+				}
 			}
 
 			parseJsonCohort(doc, cSWindow, cCohort);
@@ -467,7 +479,6 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 			cSWindow->appendCohort(cCohort);
 			lCohort = cCohort;
 
-			bool did_delim = false;
 			if (cSWindow->cohorts.size() >= soft_limit && grammar->soft_delimiters && doesSetMatchCohortNormal(*cCohort, grammar->soft_delimiters->number)) {
 				if (verbosity_level > 0) {
 					u_fprintf(ux_stderr, "Info: Soft limit of %u cohorts reached at line %u with soft delimiter.\n", soft_limit, numLines);
@@ -477,7 +488,6 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				}
 				cSWindow = nullptr;
 				cCohort = nullptr;
-				did_delim = true;
 			}
 			else if (cSWindow->cohorts.size() >= hard_limit || (grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number))) {
 				if (cSWindow->cohorts.size() >= hard_limit) {
@@ -488,20 +498,8 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				}
 				cSWindow = nullptr;
 				cCohort = nullptr;
-				did_delim = true;
 			}
 
-			if (did_delim || gWindow->next.size() > num_windows) {
-				gWindow->shuffleWindowsDown();
-				runGrammarOnWindow();
-				if (numWindows % resetAfter == 0) {
-					resetIndexes();
-				}
-				if (verbosity_level > 0) {
-					u_fprintf(ux_stderr, "Progress: L:%u, W:%u, C:%u, R:%u\r", numLines, numWindows, numCohorts, numReadings);
-					u_fflush(ux_stderr);
-				}
-			}
 			cCohort = nullptr;
 		}
 	}
@@ -517,10 +515,6 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
 	}
-	if (gWindow->current) {
-		runGrammarOnWindow();
-	}
-
 	gWindow->shuffleWindowsDown();
 	while (!gWindow->previous.empty()) {
 		auto tmp = gWindow->previous.front();
-- 
2.43.0


From cdb7ede70b107ca106a57060c1758c05a7866a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:00 +0000
Subject: [PATCH 64/69] fix: writing a reading without baseform as binary
 crashed

---
 src/BinaryApplicator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 3d1a0fd..348f1b9 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -541,7 +541,8 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					flags |= BFR_SUBREADING;
 				}
 				WRITE_U16_INTO(flags, reading_buffer);
-				WRITE_TAG_INTO(grammar->single_tags[reading->baseform], reading_buffer);
+				// A reading that lost its baseform has the wordform instead, which all readings have
+				WRITE_TAG_INTO(reading->baseform ? grammar->single_tags[reading->baseform] : reading->parent->wordform, reading_buffer);
 				std::string tag_buffer;
 				uint16_t tag_count = 0;
 				uint32SortedVector unique;
-- 
2.43.0


From 949c49486cf58c407bddc4c862b5b2286d5e22be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:03 +0000
Subject: [PATCH 65/69] fix: readings read from Niceline CG lacked their
 wordform, and a lone baseform at the end of a line crashed

---
 src/NicelineApplicator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 9536c5a..a339b1f 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -196,6 +196,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			while (space && space[0]) {
 				cReading = alloc_reading(cCohort);
 				insert_if_exists(cReading->parent->possible_sets, grammar->sets_any);
+				addTagToReading(*cReading, cCohort->wordform);
 
 				UChar* base = space;
 				if (*space == '"') {
@@ -237,8 +238,9 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 					}
 				}
 				if (base && base[0]) {
-					if (base[0] == '[' && space[-1] == ']') {
-						base[0] = space[-1] = '"';
+					auto last = base + u_strlen(base) - 1;
+					if (base[0] == '[' && *last == ']') {
+						base[0] = *last = '"';
 					}
 					Tag* tag = addTag(base);
 					if (tag->type & T_MAPPING || tag->tag[0] == grammar->mapping_prefix) {
-- 
2.43.0


From cbac7d366395f84cb143e2977c7ab46711ce7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:13 +0000
Subject: [PATCH 66/69] fix: look into as many following windows with Niceline,
 FST, Matxin and plain text input as with CG input

---
 src/FSTApplicator.cpp       | 2 +-
 src/MatxinApplicator.cpp    | 2 +-
 src/NicelineApplicator.cpp  | 2 +-
 src/PlaintextApplicator.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 475b2f0..83d5479 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -354,7 +354,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				cSWindow->appendCohort(cCohort);
 				lCohort = cCohort;
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/MatxinApplicator.cpp b/src/MatxinApplicator.cpp
index bbd338b..0d9f8a2 100644
--- a/src/MatxinApplicator.cpp
+++ b/src/MatxinApplicator.cpp
@@ -224,7 +224,7 @@ void MatxinApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index a339b1f..bb6b9a5 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -169,7 +169,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/PlaintextApplicator.cpp b/src/PlaintextApplicator.cpp
index 0c9d37f..b4d6199 100644
--- a/src/PlaintextApplicator.cpp
+++ b/src/PlaintextApplicator.cpp
@@ -160,7 +160,7 @@ void PlaintextApplicator::runGrammarOnText(std::istream& input, std::ostream& ou
 				++numWindows;
 				did_soft_lookback = false;
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
-- 
2.43.0


From 044b990906b3a087d904024337affc32d2deb003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:21 +0000
Subject: [PATCH 67/69] fix: write readings in their order in Niceline and FST
 output

---
 src/FSTApplicator.cpp      | 1 +
 src/NicelineApplicator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 83d5479..07d93f8 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -489,6 +489,7 @@ void FSTApplicator::printCohort(Cohort* cohort, std::ostream& output, bool profi
 			u_fprintf(output, "%.*S\t+?\n", wform.size() - 4, wform.data() + 2);
 		}
 		else {
+			std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
 			for (auto rter : cohort->readings) {
 				u_fprintf(output, "%.*S\t", wform.size() - 4, wform.data() + 2);
 				printReading(rter, output);
diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index bb6b9a5..5443a9d 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -449,6 +449,7 @@ void NicelineApplicator::printCohort(Cohort* cohort, std::ostream& output, bool
 		}
 	}
 
+	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
 	if (cohort->readings.empty()) {
 		u_fputc('\t', output);
 	}
-- 
2.43.0


From 75627d8bf0f0cec7d37caf067f87670c06a94bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:29 +0000
Subject: [PATCH 68/69] fix: the last cohort of FST input is at the end of its
 window, too

---
 src/FSTApplicator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 07d93f8..76006c1 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -396,6 +396,12 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 		cCohort = nullptr;
 		cSWindow = nullptr;
 	}
+	else if (cSWindow && cSWindow->cohorts.size() > 1) {
+		// The last cohort was already appended by the empty line after it
+		for (auto iter : cSWindow->cohorts.back()->readings) {
+			addTagToReading(*iter, endtag);
+		}
+	}
 	while (!gWindow->next.empty()) {
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
-- 
2.43.0


From 5880a6c5ec7adfef4a73d0b542338138186c26cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:06 +0000
Subject: [PATCH 69/69] fix: SUBSTITUTE of a wordform reaches the ignored
 readings, too

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 229eafb..67fb306 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2118,6 +2118,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							delTagFromReading(*r, get_apply_to().subreading->parent->wordform);
 							addTagToReading(*r, wf);
 						}
+						for (auto r : get_apply_to().subreading->parent->ignored) {
+							delTagFromReading(*r, get_apply_to().subreading->parent->wordform);
+							addTagToReading(*r, wf);
+						}
 						get_apply_to().subreading->parent->wordform = wf;
 						for (auto r : grammar->wf_rules) {
 							if (doesWordformsMatch(wf, r->wordform)) {
-- 
2.43.0

