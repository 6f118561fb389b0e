From 316b212ca44464cd6df40650c059bac9807e8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 01/77] fix: do not reflow relations in a window that has no
 cohorts

---
 src/GrammarApplicator_reflow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index aa9c194..141d7d2 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -295,6 +295,11 @@ void GrammarApplicator::reflowRelationWindow(uint32_t max) {
 		max = gWindow->next.back()->cohorts[0]->global_number;
 	}
 
+	if (gWindow->current->cohorts.size() < 2) {
+		// Nothing but the window's own start marker, so there is nothing to relate
+		return;
+	}
+
 	Cohort* cohort = gWindow->current->cohorts[1];
 	while (cohort->prev) {
 		cohort = cohort->prev;
-- 
2.43.0


From 97ecf4c382666a399f7af11a613b2380c6948536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 02/77] fix: FLUSH after a closed window must not leave
 pointers to freed windows

---
 src/GrammarApplicator_runGrammar.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index d45d05d..9283f37 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -492,10 +492,11 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						for (auto iter : cCohort->readings) {
 							addTagToReading(*iter, endtag);
 						}
-						cReading = lReading = nullptr;
-						cCohort = lCohort = nullptr;
-						cSWindow = lSWindow = nullptr;
 					}
+					// All windows will be freed, whether or not a cohort was open
+					cReading = lReading = nullptr;
+					cCohort = lCohort = nullptr;
+					cSWindow = lSWindow = nullptr;
 					while (!gWindow->next.empty()) {
 						gWindow->shuffleWindowsDown();
 						runGrammarOnWindow();
-- 
2.43.0


From ff36095d7464842f7e03b39b56e378722dc0e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 03/77] fix: binary FLUSH must flush the output stream

---
 src/BinaryApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 3d1a0fd..7f999f5 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -114,6 +114,7 @@ void BinaryApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 				if (!flush(true)) {
 					printStreamCommand(STR_CMD_FLUSH, *ux_stdout);
 				}
+				u_fflush(*ux_stdout);
 			}
 			else if (cmd == BFC_EXIT) {
 				printStreamCommand(STR_CMD_EXIT, *ux_stdout);
-- 
2.43.0


From 9d7a48e1025ed2aee008edf6066e3d551ad61244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 04/77] fix: answer a flush with the flush marker of the output
 format

---
 src/ApertiumApplicator.cpp | 13 ++++++++++++-
 src/ApertiumApplicator.hpp |  1 +
 src/FormatConverter.cpp    |  5 ++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index a8a7664..9fbc349 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -252,7 +252,8 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 		}
 
 		if (n && !backSWindow) {
-			u_fputc('\0', output);
+			// May be converting to a different format, so the output format decides what a flush looks like
+			printStreamCommand(STR_CMD_FLUSH, output);
 		}
 		u_fflush(output);
 
@@ -977,6 +978,16 @@ void ApertiumApplicator::printSingleWindow(SingleWindow* window, std::ostream& o
 	}
 }
 
+void ApertiumApplicator::printStreamCommand(UStringView cmd, std::ostream& output) {
+	// The null byte is Apertium's flush command
+	if (cmd == STR_CMD_FLUSH) {
+		u_fputc('\0', output);
+	}
+	else {
+		GrammarApplicator::printStreamCommand(cmd, output);
+	}
+}
+
 void ApertiumApplicator::mergeMappings(Cohort& cohort) {
 	// Only merge readings which are completely equal (including mapping tags)
 	// foo<N><Sg><Acc><@←OBJ>/foo<N><Sg><Acc><@←OBJ>
diff --git a/src/ApertiumApplicator.hpp b/src/ApertiumApplicator.hpp
index 368b0fd..f4d2dea 100644
--- a/src/ApertiumApplicator.hpp
+++ b/src/ApertiumApplicator.hpp
@@ -45,6 +45,7 @@ protected:
 	void printReading(const Reading* reading, std::ostream& output);
 	void printCohort(Cohort* cohort, std::ostream& output, bool profiling = false) override;
 	void printSingleWindow(SingleWindow* window, std::ostream& output, bool profiling = false) override;
+	void printStreamCommand(UStringView cmd, std::ostream& output) override;
 
 	void mergeMappings(Cohort& cohort);
 
diff --git a/src/FormatConverter.cpp b/src/FormatConverter.cpp
index a38094e..a672e0f 100644
--- a/src/FormatConverter.cpp
+++ b/src/FormatConverter.cpp
@@ -248,8 +248,11 @@ void FormatConverter::printStreamCommand(UStringView cmd, std::ostream& output)
 		BinaryApplicator::printStreamCommand(cmd, output);
 		break;
 	}
+	case CG3SF_APERTIUM: {
+		ApertiumApplicator::printStreamCommand(cmd, output);
+		break;
+	}
 	case CG3SF_CG:
-	case CG3SF_APERTIUM:
 	case CG3SF_FST:
 	case CG3SF_NICELINE:
 	case CG3SF_PLAIN:
-- 
2.43.0


From e0050d26dd26c502baea6136d5f3951aecae430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 05/77] fix: SWITCHPARENT must not dereference a parent that is
 not in memory

---
 src/GrammarApplicator_runRules.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index faaff84..9040b34 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2663,11 +2663,16 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
 				finish_reading_loop = false;
-				TRACE;
 
 				// collect cohorts
 				Cohort* child = get_apply_to().cohort;
-				Cohort* parent = current.parent->cohort_map[child->dep_parent];
+				auto parent_it = current.parent->cohort_map.find(child->dep_parent);
+				if (parent_it == current.parent->cohort_map.end()) {
+					// The parent is not among the windows still in memory
+					return;
+				}
+				TRACE;
+				Cohort* parent = parent_it->second;
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-- 
2.43.0


From f612f241c25c6c947b3f1427c5930f891cfb707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 06/77] fix: FST input: a soft limit break must not go on with
 a closed window

---
 src/FSTApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 475b2f0..8e636ca 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -322,6 +322,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				lSWindow = cSWindow;
 				lCohort = cCohort;
 				cSWindow = nullptr;
+				cCohort = nullptr;
 				did_soft_lookback = false;
 			}
 			if (cCohort && (cSWindow->cohorts.size() >= hard_limit || (!dep_delimit && grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number)))) {
-- 
2.43.0


From ab4887a0a94acec4a3171abb92e4105076935607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 07/77] fix: binary output of a reading without a baseform must
 not crash

---
 src/BinaryApplicator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 7f999f5..8b1143c 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -542,7 +542,8 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					flags |= BFR_SUBREADING;
 				}
 				WRITE_U16_INTO(flags, reading_buffer);
-				WRITE_TAG_INTO(grammar->single_tags[reading->baseform], reading_buffer);
+				// Rules may have removed the baseform, in which case the wordform takes its place as readers add that anyway
+				WRITE_TAG_INTO(reading->baseform ? grammar->single_tags[reading->baseform] : cohort->wordform, reading_buffer);
 				std::string tag_buffer;
 				uint16_t tag_count = 0;
 				uint32SortedVector unique;
-- 
2.43.0


From d9fefa290b3ca4eaa79a933afc02a27bbbb2bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 08/77] fix: a dependency that was ignored must not come back
 as an arbitrary cohort number

---
 src/GrammarApplicator_reflow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 141d7d2..f8569d4 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -269,6 +269,8 @@ void GrammarApplicator::reflowDependencyWindow(uint32_t max) {
 						u_fflush(ux_stderr);
 					}
 					cohort->dep_parent = DEP_NO_PARENT;
+					// A later reflow of the readings must not bring the unresolvable numbers back
+					cohort->type |= CT_DEP_DONE;
 				}
 				else {
 					if (!(cohort->type & CT_DEP_DONE)) {
-- 
2.43.0


From 8534c86c6ea9d06a00740b15dbe1a749e277ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 09/77] fix: variables set or removed right before a flush must
 not leak past it

---
 src/BinaryApplicator.cpp             |  1 +
 src/GrammarApplicator_runGrammar.cpp | 64 ++++++++++++++++----------
 src/JsonlApplicator.cpp              | 68 +++++++++++++++++++---------
 3 files changed, 88 insertions(+), 45 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 8b1143c..a28c82c 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -114,6 +114,7 @@ void BinaryApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 				if (!flush(true)) {
 					printStreamCommand(STR_CMD_FLUSH, *ux_stdout);
 				}
+				variables.clear();
 				u_fflush(*ux_stdout);
 			}
 			else if (cmd == BFC_EXIT) {
diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 9283f37..0423ebb 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -154,6 +154,31 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 		variables_output.clear();
 	};
 
+	// Print variables that were set or removed after the last window
+	auto print_variables = [&]() {
+		for (auto var : variables_output) {
+			Tag* key = grammar->single_tags[var];
+			auto iter = variables_set.find(var);
+			UString cmd_buf;
+			if (iter != variables_set.end()) {
+				if (iter->second != grammar->tag_any) {
+					Tag* value = grammar->single_tags[iter->second];
+					cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u"=").append(value->tag).append(u">");
+				}
+				else {
+					cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u">");
+				}
+			}
+			else {
+				cmd_buf.append(STR_CMD_REMVAR).append(key->tag).append(u">");
+			}
+			printStreamCommand(cmd_buf, output);
+		}
+		variables_set.clear();
+		variables_rem.clear();
+		variables_output.clear();
+	};
+
 	auto binary_maybe_window = [&]() {
 		if (fmt_output == CG3SF_BINARY) {
 			cSWindow = gWindow->allocAppendSingleWindow();
@@ -478,11 +503,6 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					}
 					is_cmd = true;
 
-					auto backSWindow = gWindow->back();
-					if (backSWindow) {
-						backSWindow->flush_after = true;
-					}
-
 					if (cCohort && cSWindow) {
 						splitAllMappings(all_mappings, *cCohort, true);
 						cSWindow->appendCohort(cCohort);
@@ -493,6 +513,18 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 							addTagToReading(*iter, endtag);
 						}
 					}
+					if (fmt_output == CG3SF_BINARY && !variables_output.empty()) {
+						binary_maybe_window();
+						adopt_variables();
+					}
+
+					// Variables that no window has adopted must come before the flush, and not leak past it
+					auto backSWindow = gWindow->back();
+					bool flush_last = (!backSWindow || !variables_output.empty());
+					if (!flush_last) {
+						backSWindow->flush_after = true;
+					}
+
 					// All windows will be freed, whether or not a cohort was open
 					cReading = lReading = nullptr;
 					cCohort = lCohort = nullptr;
@@ -516,7 +548,8 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						gWindow->previous.erase(gWindow->previous.begin());
 					}
 
-					if (!backSWindow) {
+					print_variables();
+					if (flush_last) {
 						printStreamCommand(STR_CMD_FLUSH, output);
 					}
 					line[0] = 0;
@@ -734,24 +767,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 
 	u_fflush(output);
 
-	for (auto var : variables_output) {
-		Tag* key = grammar->single_tags[var];
-		auto iter = variables_set.find(var);
-		UString cmd_buf;
-		if (iter != variables_set.end()) {
-			if (iter->second != grammar->tag_any) {
-				Tag* value = grammar->single_tags[iter->second];
-				cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u"=").append(value->tag).append(u">");
-			}
-			else {
-				cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u">");
-			}
-		}
-		else {
-			cmd_buf.append(STR_CMD_REMVAR).append(key->tag).append(u">");
-		}
-		printStreamCommand(cmd_buf, output);
-	}
+	print_variables();
 
 CGCMD_EXIT:
 	if (verbosity_level > 0) {
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 5f139bf..493222c 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -281,6 +281,44 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 	uint32FlatHashSet variables_rem;
 	uint32SortedVector variables_output;
 
+	// Print any remaining 'global' variables that were set/rem'd after the last window was finalized
+	auto print_variables = [&]() {
+		for (auto var : variables_output) {
+			auto key = grammar->single_tags[var];
+			auto iter = variables_set.find(var);
+			UString cmd_buf;
+			if (iter != variables_set.end()) {
+				if (iter->second != grammar->tag_any) {
+					auto value = grammar->single_tags[iter->second];
+					cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u"=").append(value->tag).append(u">");
+				}
+				else {
+					cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u">");
+				}
+			}
+			else { // Implies it was in variables_rem if it's in variables_output but not variables_set
+				cmd_buf.append(STR_CMD_REMVAR).append(key->tag).append(u">");
+			}
+			printStreamCommand(cmd_buf, output);
+		}
+		variables_set.clear();
+		variables_rem.clear();
+		variables_output.clear();
+	};
+	// Binary has no commands for variables, so there they need a window
+	auto binary_variables = [&]() {
+		if (fmt_output == CG3SF_BINARY && !variables_output.empty()) {
+			auto window = gWindow->allocAppendSingleWindow();
+			initEmptySingleWindow(window);
+			window->variables_set = variables_set;
+			variables_set.clear();
+			window->variables_rem = variables_rem;
+			variables_rem.clear();
+			window->variables_output = variables_output;
+			variables_output.clear();
+		}
+	};
+
 	ux_stripBOM(input);
 
 	std::string line_str;
@@ -313,8 +351,12 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 						u_fprintf(ux_stderr, "Info: FLUSH command encountered in JSONL input on line %u. Flushing...\n", numLines);
 					}
 
+					binary_variables();
+
+					// Variables that no window has adopted must come before the flush, and not leak past it
 					auto backSWindow = gWindow->back();
-					if (backSWindow) {
+					bool flush_last = (!backSWindow || !variables_output.empty());
+					if (!flush_last) {
 						backSWindow->flush_after = true;
 					}
 
@@ -348,7 +390,8 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 						gWindow->previous.erase(gWindow->previous.begin());
 					}
 
-					if (!backSWindow) {
+					print_variables();
+					if (flush_last) {
 						printStreamCommand(cmd_ustr, output);
 					}
 
@@ -506,6 +549,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		}
 	}
 
+	binary_variables();
 	while (!gWindow->next.empty()) {
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
@@ -524,25 +568,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 
 	u_fflush(output);
 
-	// Print any remaining 'global' variables that were set/rem'd after the last window was finalized
-	for (auto var : variables_output) {
-		auto key = grammar->single_tags[var];
-		auto iter = variables_set.find(var);
-		UString cmd_buf;
-		if (iter != variables_set.end()) {
-			if (iter->second != grammar->tag_any) {
-				auto value = grammar->single_tags[iter->second];
-				cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u"=").append(value->tag).append(u">");
-			}
-			else {
-				cmd_buf.append(STR_CMD_SETVAR).append(key->tag).append(u">");
-			}
-		}
-		else { // Implies it was in variables_rem if it's in variables_output but not variables_set
-			cmd_buf.append(STR_CMD_REMVAR).append(key->tag).append(u">");
-		}
-		printStreamCommand(cmd_buf, output);
-	}
+	print_variables();
 
 CGCMD_EXIT_JSONL: // Label for EXIT command
 
-- 
2.43.0


From 1d84fd49dedb0616cd8680909b1eb6fddc3ebe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 10/77] fix: SWITCHPARENT must not put the root below a cohort

A cohort attached to the root was switched with whichever window's root the
number 0 happened to stand for, so the answer depended on earlier windows.
---
 src/GrammarApplicator_runRules.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 9040b34..ce6fec3 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2667,8 +2667,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				// collect cohorts
 				Cohort* child = get_apply_to().cohort;
 				auto parent_it = current.parent->cohort_map.find(child->dep_parent);
-				if (parent_it == current.parent->cohort_map.end()) {
-					// The parent is not among the windows still in memory
+				if (parent_it == current.parent->cohort_map.end() || parent_it->second->local_number == 0) {
+					// The parent is not among the windows still in memory, or is the root that has no place in the tree to take
 					return;
 				}
 				TRACE;
@@ -2690,7 +2690,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				// reattach
 				auto it = current.parent->cohort_map.find(grandparent_number);
-				if (it != current.parent->cohort_map.end()) {
+				if (grandparent_number == 0) {
+					// 0 is the root of whichever window the cohort is in
+					attachParentChild(*current.cohorts[0], *child);
+				}
+				else if (it != current.parent->cohort_map.end()) {
 					attachParentChild(*(it->second), *child);
 				}
 				attachParentChild(*child, *parent);
-- 
2.43.0


From 87c0eaefcb5774710400cdeddd5a8809874348ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 11/77] fix: readings an IFF could not remove must not carry
 over to the next cohort

When every reading of a cohort would have gone, nothing was removed but the list
was kept, so the readings ended up among the deleted of the next cohort, too, and
were freed twice.
---
 src/GrammarApplicator_runRules.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index ce6fec3..a5bf6e1 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1399,6 +1399,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				if (get_apply_to().cohort->readings.empty()) {
 					initEmptyCohort(*get_apply_to().cohort);
 				}
+				removed.clear();
 				selected.clear();
 			}
 			else if (rule->type == K_JUMP) {
-- 
2.43.0


From 677dd5ce8ae5eb4ba988464dbe42a8b8b2bfaa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 12/77] fix: formatted output longer than 500 code units must
 be written whole

ICU does not count literal text that did not fit, so the retry buffer was too
small: the end of the text was lost or replaced by what was in memory.
---
 src/uextras.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 68e33cb..513ce3d 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -269,11 +269,20 @@ inline int32_t _u_fprintf(std::ostream& output, const Char* fmt, va_list args) {
 	if (n16 < 0) {
 		throw std::runtime_error("Critical error in u_fprintf() wrapper");
 	}
-	if (n16 > SI32(size(_buf16))) {
-		_str16.resize(n16 + 1);
+	// ICU does not count literal text that did not fit, so only a buffer with room to spare is known to hold everything
+	for (auto cap = SI32(size(_buf16)); n16 >= cap;) {
+		cap = n16 * 2;
+		_str16.resize(cap);
 		buf16 = &_str16[0];
-		n16 = _u_vsnprintf(buf16, n16, fmt, args2);
+		va_list args3;
+		va_copy(args3, args2);
+		n16 = _u_vsnprintf(buf16, cap, fmt, args3);
+		va_end(args3);
+		if (n16 < 0) {
+			throw std::runtime_error("Critical error in u_fprintf() wrapper");
+		}
 	}
+	va_end(args2);
 
 	char _buf8[size(_buf16) * 3];
 	std::string _str8;
-- 
2.43.0


From 20aa13990ba94dab21844a577f00897581436d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 13/77] fix: removed cohorts must not keep pointing at the
 window that went with them

When merging across windows emptied a window, the removed cohorts moved to a
neighbour but kept the freed window as parent, so that freeing them later erased
another window's dependencies.
---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index a5bf6e1..733f0a8 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1222,6 +1222,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				gWindow->cohort_map.erase(cohort->global_number);
 				free_cohort(cohort);
 
+				// The removed cohorts live on in another window
+				for (size_t i = 1; i < current.all_cohorts.size(); ++i) {
+					current.all_cohorts[i]->parent = current.previous ? current.previous : current.next;
+				}
 				if (current.previous) {
 					current.previous->text += current.text + current.text_post;
 					current.previous->all_cohorts.insert(current.previous->all_cohorts.end(), current.all_cohorts.begin() + 1, current.all_cohorts.end());
-- 
2.43.0


From 7562eb49a5aabc833d921fc29a740babf8801a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 14/77] fix: bstreambuf wrote past the caller's buffer and
 dropped peeked characters

---
 src/streambuf.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/streambuf.hpp b/src/streambuf.hpp
index 784c29c..ea2010a 100644
--- a/src/streambuf.hpp
+++ b/src/streambuf.hpp
@@ -91,6 +91,10 @@ public:
 		}
 		else {
 			c = stream->get();
+			if (c == std::char_traits<char_type>::eof()) {
+				setg(&ch, &ch + 1, &ch + 1);
+				return c;
+			}
 		}
 		ch = static_cast<char_type>(c);
 		setg(&ch, &ch, &ch + 1);
@@ -99,6 +103,10 @@ public:
 
 	std::streamsize xsgetn(char_type* s, std::streamsize count) {
 		std::streamsize i = 0;
+		if (i < count && gptr() < egptr()) {
+			// Character that was peeked at, but not consumed
+			s[i++] = ch;
+		}
 		for (; offset < buffer.size() && i < count; ++i) {
 			s[i] = buffer[offset++];
 		}
@@ -106,8 +114,9 @@ public:
 			stream->read(s + i, count - i);
 			i += stream->gcount();
 		}
-		s[i] = 0;
-		setg(&ch, &ch + 1, &ch + 1);
+		if (i) {
+			setg(&ch, &ch + 1, &ch + 1);
+		}
 		return i;
 	}
 
-- 
2.43.0


From 54debd9a59d66ded24b27cfbeb5714d82de76626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 15/77] fix: trimming a line read before the start of the line
 buffer when no line was read

---
 src/FSTApplicator.cpp                | 2 +-
 src/GrammarApplicator_runGrammar.cpp | 2 +-
 src/NicelineApplicator.cpp           | 2 +-
 src/PlaintextApplicator.cpp          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 8e636ca..804d4da 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -90,7 +90,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 		auto packoff = get_line_clean(line, cleaned, input, true);
 
 		// Trim trailing whitespace
-		while (cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
+		while (packoff && cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
 			cleaned[packoff - 1] = 0;
 			--packoff;
 		}
diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 0423ebb..3803642 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -193,7 +193,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 		auto packoff = get_line_clean(line, cleaned, input);
 
 		// Trim trailing whitespace
-		while (cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
+		while (packoff && cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
 			cleaned[packoff - 1] = 0;
 			--packoff;
 		}
diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 9536c5a..3c13458 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -88,7 +88,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 		auto packoff = get_line_clean(line, cleaned, input, true);
 
 		// Trim trailing whitespace
-		while (cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
+		while (packoff && cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
 			cleaned[packoff - 1] = 0;
 			--packoff;
 		}
diff --git a/src/PlaintextApplicator.cpp b/src/PlaintextApplicator.cpp
index 0c9d37f..5568a7c 100644
--- a/src/PlaintextApplicator.cpp
+++ b/src/PlaintextApplicator.cpp
@@ -89,7 +89,7 @@ void PlaintextApplicator::runGrammarOnText(std::istream& input, std::ostream& ou
 		auto packoff = get_line_clean(line, cleaned, input);
 
 		// Trim trailing whitespace
-		while (cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
+		while (packoff && cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
 			cleaned[packoff - 1] = 0;
 			--packoff;
 		}
-- 
2.43.0


From 6574faf7502e9efea7060d8b184d0269bd1e0aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 16/77] fix: REMCOHORT of the last cohort looked up a cohort
 past the end of the window

---
 src/GrammarApplicator_runRules.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 733f0a8..9307e68 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -531,7 +531,11 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			override_cohortset();
 			cohortsets.back() = cohortset;
 			auto gac = get_apply_to().cohort;
-			auto lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+			auto lb = cohortset->end();
+			// The cohort may have just been removed from the end of the window
+			if (gac->local_number < current.cohorts.size()) {
+				lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+			}
 			if (lb == cohortset->end()) {
 				rocit = cohortset->size();
 			} else {
-- 
2.43.0


From 9c753750550b9f3f24bc750e83606341f90c775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 17/77] fix: a dependency on or of an ignored cohort was
 followed through a null pointer

---
 src/GrammarApplicator_runRules.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 9307e68..8347567 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1117,7 +1117,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 				}
 				else {
-					attachParentChild(*current.parent->cohort_map[c->dep_parent], *cCohort);
+					auto parent = current.parent->cohort_map.find(c->dep_parent);
+					if (parent != current.parent->cohort_map.end()) {
+						attachParentChild(*parent->second, *cCohort);
+					}
 				}
 
 				std::set<uint32_t> ps;
@@ -1192,11 +1195,16 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			// ToDo: Named relations must be erased
 			while (!cohort->dep_children.empty()) {
 				uint32_t ch = cohort->dep_children.back();
-				if (cohort->dep_parent == DEP_NO_PARENT) {
-					attachParentChild(*gWindow->cohort_map[0], *gWindow->cohort_map[ch], true, true);
-				}
-				else {
-					attachParentChild(*gWindow->cohort_map[cohort->dep_parent], *gWindow->cohort_map[ch], true, true);
+				// Either end may currently be removed by REMCOHORT IGNORED
+				auto child = gWindow->cohort_map.find(ch);
+				auto parent = gWindow->cohort_map.find(cohort->dep_parent);
+				if (child != gWindow->cohort_map.end()) {
+					if (parent == gWindow->cohort_map.end()) {
+						attachParentChild(*gWindow->cohort_map[0], *child->second, true, true);
+					}
+					else {
+						attachParentChild(*parent->second, *child->second, true, true);
+					}
 				}
 				cohort->dep_children.erase(ch);
 			}
@@ -1749,7 +1757,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					if (cohort_dep[i].first == DEP_NO_PARENT) {
 						while (!get_apply_to().cohort->dep_children.empty()) {
 							uint32_t ch = get_apply_to().cohort->dep_children.back();
-							attachParentChild(*cCohort, *current.parent->cohort_map[ch], true, true);
+							auto child = current.parent->cohort_map.find(ch);
+							if (child != current.parent->cohort_map.end()) {
+								attachParentChild(*cCohort, *child->second, true, true);
+							}
 							get_apply_to().cohort->dep_children.erase(ch); // Just in case the attachment can't be made for some reason
 						}
 					}
-- 
2.43.0


From d8b01b4b900750c9d7c414c63eff25ab851d56d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 18/77] fix: an error in the input must end the tools with a
 diagnostic and a status, not with an abort

---
 src/cg-comp.cpp              | 6 +++++-
 src/cg-conv.cpp              | 6 +++++-
 src/cg-merge-annotations.cpp | 6 +++++-
 src/cg-mwesplit.cpp          | 6 +++++-
 src/cg-proc.cpp              | 6 +++++-
 src/cg-relabel.cpp           | 6 +++++-
 src/main.cpp                 | 6 +++++-
 7 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/cg-comp.cpp b/src/cg-comp.cpp
index 260c3c2..b8bb42a 100644
--- a/src/cg-comp.cpp
+++ b/src/cg-comp.cpp
@@ -44,7 +44,7 @@ void endProgram(char* name) {
 	exit(EXIT_FAILURE);
 }
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
 	UErrorCode status = U_ZERO_ERROR;
 
 	if (argc != 3) {
@@ -119,3 +119,7 @@ int main(int argc, char* argv[]) {
 
 	return status;
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	exit(1);
+}
diff --git a/src/cg-conv.cpp b/src/cg-conv.cpp
index 7c9f593..eef3f50 100644
--- a/src/cg-conv.cpp
+++ b/src/cg-conv.cpp
@@ -29,7 +29,7 @@ using namespace Options;
 using namespace OptionsConv;
 using namespace CG3;
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
 	UErrorCode status = U_ZERO_ERROR;
 
 	/* Initialize ICU */
@@ -248,3 +248,7 @@ int main(int argc, char* argv[]) {
 
 	u_cleanup();
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	exit(1);
+}
diff --git a/src/cg-merge-annotations.cpp b/src/cg-merge-annotations.cpp
index e770a5b..99b890f 100644
--- a/src/cg-merge-annotations.cpp
+++ b/src/cg-merge-annotations.cpp
@@ -23,7 +23,7 @@
 namespace fs = ::std::filesystem;
 using namespace CG3;
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
 	Profiler out;
 	out.read(argv[2]);
 
@@ -63,3 +63,7 @@ int main(int argc, char* argv[]) {
 
 	out.write(argv[1]);
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	exit(1);
+}
diff --git a/src/cg-mwesplit.cpp b/src/cg-mwesplit.cpp
index 4ac8dc3..596aa99 100644
--- a/src/cg-mwesplit.cpp
+++ b/src/cg-mwesplit.cpp
@@ -44,7 +44,7 @@ UOption options_mwe[] = {
 }
 using namespace OptionsMWE;
 
-int main(int argc, char** argv) {
+int main(int argc, char** argv) try {
 	UErrorCode status = U_ZERO_ERROR;
 
 	/* Initialize ICU */
@@ -101,3 +101,7 @@ int main(int argc, char** argv) {
 
 	u_cleanup();
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	exit(1);
+}
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index 1f7e992..b72362f 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -84,7 +84,7 @@ void endProgram(char* name) {
 	exit(EXIT_FAILURE);
 }
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
 	bool trace = false;
 	bool wordform_case = false;
 	bool print_word_forms = true;
@@ -362,3 +362,7 @@ int main(int argc, char* argv[]) {
 
 	u_cleanup();
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	exit(1);
+}
diff --git a/src/cg-relabel.cpp b/src/cg-relabel.cpp
index 139677a..dc729a9 100644
--- a/src/cg-relabel.cpp
+++ b/src/cg-relabel.cpp
@@ -84,7 +84,7 @@ Grammar* cg3_grammar_load(const char* filename, std::ostream& ux_stdout, std::os
 	return grammar;
 }
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
 	UErrorCode status = U_ZERO_ERROR;
 
 	if (argc != 4) {
@@ -121,3 +121,7 @@ int main(int argc, char* argv[]) {
 
 	return status;
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	exit(1);
+}
diff --git a/src/main.cpp b/src/main.cpp
index 669ef61..2f8f7c4 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -30,7 +30,7 @@
 using namespace Options;
 using namespace CG3;
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
 	clock_t main_timer = clock();
 
 	UErrorCode status = U_ZERO_ERROR;
@@ -467,3 +467,7 @@ int main(int argc, char* argv[]) {
 
 	return status;
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	exit(1);
+}
-- 
2.43.0


From d15e1dc6e07d647d25ade1bf1edd1e592d6eb2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 19/77] fix: a truncated or corrupt binary stream was read out
 of bounds

---
 src/BinaryApplicator.cpp | 62 +++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index a28c82c..f0c6591 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -145,9 +145,12 @@ BinaryPacket BinaryApplicator::readPacket() {
 	else if (packet.type == BFP_COMMAND) {
 		readCommand(packet.payload);
 	}
-	if (packet.type == BFP_TEXT) {
+	else if (packet.type == BFP_TEXT) {
 		readText(packet.payload);
 	}
+	else if (!ux_stdin->eof()) {
+		throw std::runtime_error("Binary stream is corrupt: unknown packet type");
+	}
 	return packet;
 }
 
@@ -155,9 +158,8 @@ void BinaryApplicator::readWindow(void*& payload) {
 	uint32_t cs = 0;
 	readLE(*ux_stdin, cs);
 
-	if (ux_stdin->eof()) {
-		payload = nullptr;
-		return;
+	if (!*ux_stdin) {
+		throw std::runtime_error("Binary stream ends in the middle of a window");
 	}
 
 	SingleWindow* cSWindow = gWindow->allocAppendSingleWindow();
@@ -165,9 +167,19 @@ void BinaryApplicator::readWindow(void*& payload) {
 
 	std::string buf(cs, 0);
 	ux_stdin->read(&buf[0], cs);
+	if (ux_stdin->gcount() != static_cast<std::streamsize>(cs)) {
+		throw std::runtime_error("Binary stream ends in the middle of a window");
+	}
 	uint32_t pos = 0;
 
+	auto NEED = [&](uint32_t n) {
+		if (n > cs - pos) {
+			throw std::runtime_error("Binary stream window is corrupt: field extends past the end of the window");
+		}
+	};
+
 	auto READ_U16_INTO = [&](uint16_t& dest) {
+		NEED(sizeof(dest));
 		dest = *reinterpret_cast<uint16_t*>(&buf[pos]);
 		be::little_to_native_inplace(dest);
 		pos += sizeof(dest);
@@ -180,6 +192,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 	};
 
 	auto READ_U32_INTO = [&](uint32_t& dest) {
+		NEED(sizeof(dest));
 		dest = *reinterpret_cast<uint32_t*>(&buf[pos]);
 		be::little_to_native_inplace(dest);
 		pos += sizeof(dest);
@@ -193,11 +206,15 @@ void BinaryApplicator::readWindow(void*& payload) {
 
 	auto READ_STR_INTO = [&](UString& dest) {
 		auto tl = READ_U16();
+		NEED(tl);
 		dest.clear();
 		dest.resize(tl);
 		int32_t olen = 0;
 		UErrorCode status = U_ZERO_ERROR;
-		u_strFromUTF8(&(dest)[0], tl, &olen, &buf[pos], tl, &status);
+		u_strFromUTF8(&(dest)[0], tl, &olen, buf.data() + pos, tl, &status);
+		if (U_FAILURE(status)) {
+			throw std::runtime_error("Binary stream window is corrupt: string is not valid UTF-8");
+		}
 		dest.resize(olen);
 		pos += tl;
 	};
@@ -214,6 +231,9 @@ void BinaryApplicator::readWindow(void*& payload) {
 	for (uint16_t i = 0; i < tag_count; ++i) {
 		UString tg;
 		READ_STR_INTO(tg);
+		if (tg.empty()) {
+			throw std::runtime_error("Binary stream window is corrupt: empty tag");
+		}
 		window_tags.push_back(addTag(tg));
 		if (tg[0] == grammar->mapping_prefix) {
 			window_tags.back()->type |= T_MAPPING;
@@ -223,15 +243,23 @@ void BinaryApplicator::readWindow(void*& payload) {
 		}
 	}
 
+	auto WINDOW_TAG = [&](uint16_t idx) {
+		if (idx >= window_tags.size()) {
+			throw std::runtime_error("Binary stream window is corrupt: tag index out of range");
+		}
+		return window_tags[idx];
+	};
+
 	auto var_count = READ_U16();
 	for (uint16_t vn = 0; vn < var_count; ++vn) {
+		NEED(1);
 		char mode = buf[pos];
 		++pos;
 		auto tag1 = READ_U16();
 		auto tag2 = READ_U16();
-		auto hash1 = window_tags[tag1]->hash;
+		auto hash1 = WINDOW_TAG(tag1)->hash;
 		if (mode == BFV_SETVAR) {
-			cSWindow->variables_set[hash1] = window_tags[tag2]->hash;
+			cSWindow->variables_set[hash1] = WINDOW_TAG(tag2)->hash;
 			cSWindow->variables_rem.erase(hash1);
 			cSWindow->variables_output.insert(hash1);
 		}
@@ -264,7 +292,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 		}
 
 		READ_U16_INTO(tag);
-		cCohort->wordform = window_tags[tag];
+		cCohort->wordform = WINDOW_TAG(tag);
 
 		READ_U16_INTO(tag_count);
 		if (tag_count) {
@@ -272,7 +300,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 			addTagToReading(*cCohort->wread, cCohort->wordform);
 			for (uint16_t tn = 0; tn < tag_count; ++tn) {
 				READ_U16_INTO(tag);
-				addTagToReading(*cCohort->wread, window_tags[tag], (tn + 1 == tag_count));
+				addTagToReading(*cCohort->wread, WINDOW_TAG(tag), (tn + 1 == tag_count));
 			}
 		}
 
@@ -288,7 +316,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 		for (uint16_t rn = 0; rn < rel_count; ++rn) {
 			READ_U16_INTO(tag);
 			auto head = READ_U32();
-			cCohort->relations_input[window_tags[tag]->hash].insert(head);
+			cCohort->relations_input[WINDOW_TAG(tag)->hash].insert(head);
 		}
 		if (rel_count) {
 			has_relations = true;
@@ -311,17 +339,17 @@ void BinaryApplicator::readWindow(void*& payload) {
 			READ_U16_INTO(flags);
 
 			READ_U16_INTO(tag);
-			addTagToReading(*cReading, window_tags[tag]);
+			addTagToReading(*cReading, WINDOW_TAG(tag));
 
 			READ_U16_INTO(tag_count);
 			TagList mappings;
 			for (uint16_t tn = 0; tn < tag_count; ++tn) {
 				READ_U16_INTO(tag);
-				if (window_tags[tag]->type & T_MAPPING) {
-					mappings.push_back(window_tags[tag]);
+				if (WINDOW_TAG(tag)->type & T_MAPPING) {
+					mappings.push_back(WINDOW_TAG(tag));
 				}
 				else {
-					addTagToReading(*cReading, window_tags[tag]);
+					addTagToReading(*cReading, WINDOW_TAG(tag));
 				}
 			}
 			if (!mappings.empty()) {
@@ -358,11 +386,17 @@ void BinaryApplicator::readWindow(void*& payload) {
 
 void BinaryApplicator::readCommand(void*& payload) {
 	auto cmd = readLE<uint8_t>(*ux_stdin);
+	if (!*ux_stdin) {
+		throw std::runtime_error("Binary stream ends in the middle of a command");
+	}
 	payload = reinterpret_cast<void*>(static_cast<uintptr_t>(cmd));
 }
 
 void BinaryApplicator::readText(void*& payload) {
 	readUTF8_LE(*ux_stdin, text);
+	if (!*ux_stdin) {
+		throw std::runtime_error("Binary stream ends in the middle of a text");
+	}
 	payload = &text;
 }
 
-- 
2.43.0


From dea0bc8f9eb9aa45e127a8ff509f61fc58b853ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 20/77] fix: SETVAR without a name dereferenced a tag the tools
 without a grammar never made

---
 src/FormatConverter.cpp    | 3 ++-
 src/MweSplitApplicator.cpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FormatConverter.cpp b/src/FormatConverter.cpp
index a672e0f..bdf15e8 100644
--- a/src/FormatConverter.cpp
+++ b/src/FormatConverter.cpp
@@ -28,7 +28,7 @@ cg3_sformat detectFormat(std::string_view buf8) {
 	cg3_sformat fmt = CG3SF_INVALID;
 	UErrorCode status = U_ZERO_ERROR;
 
-	if (is_cg3bsf(buf8)) {
+	if (buf8.size() >= 4 && is_cg3bsf(buf8)) {
 		fmt = CG3SF_BINARY;
 		return fmt;
 	}
@@ -110,6 +110,7 @@ FormatConverter::FormatConverter(std::ostream& ux_err)
 {
 	conv_grammar.ux_stderr = &ux_err;
 	conv_grammar.allocateDummySet();
+	conv_grammar.tag_any = conv_grammar.allocateTag(STR_ASTERIK)->hash;
 	conv_grammar.delimiters = conv_grammar.allocateSet();
 	conv_grammar.addTagToSet(conv_grammar.allocateTag(STR_DUMMY), conv_grammar.delimiters);
 	conv_grammar.reindex();
diff --git a/src/MweSplitApplicator.cpp b/src/MweSplitApplicator.cpp
index 585fe56..5b2e372 100644
--- a/src/MweSplitApplicator.cpp
+++ b/src/MweSplitApplicator.cpp
@@ -28,6 +28,7 @@ MweSplitApplicator::MweSplitApplicator(std::ostream& ux_err)
 	grammar->ux_stderr = ux_stderr;
 	grammar->allocateDummySet();
 	grammar->delimiters = grammar->allocateSet();
+	grammar->tag_any = grammar->allocateTag(STR_ASTERIK)->hash;
 	grammar->addTagToSet(grammar->allocateTag(STR_DUMMY), grammar->delimiters);
 	grammar->reindex();
 	setGrammar(grammar);
-- 
2.43.0


From 2375e077e55d38351e8fa647c0254fc364f0b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 21/77] fix: a Niceline line that ends in a [bracketed] tag
 dereferenced null

---
 src/NicelineApplicator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 3c13458..bfb9c5d 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -237,8 +237,10 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 					}
 				}
 				if (base && base[0]) {
-					if (base[0] == '[' && space[-1] == ']') {
-						base[0] = space[-1] = '"';
+					// space is null here, so find the end of the last tag itself
+					UChar* last = base + u_strlen(base) - 1;
+					if (base[0] == '[' && *last == ']') {
+						base[0] = *last = '"';
 					}
 					Tag* tag = addTag(base);
 					if (tag->type & T_MAPPING || tag->tag[0] == grammar->mapping_prefix) {
-- 
2.43.0


From b401a9d3b137a7bd8a35fc0381393c458245a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 22/77] fix: a relation name longer than 255 characters
 overflowed a stack buffer

---
 src/Tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tag.cpp b/src/Tag.cpp
index 1096516..28b4285 100644
--- a/src/Tag.cpp
+++ b/src/Tag.cpp
@@ -126,7 +126,7 @@ void Tag::parseTagRaw(const UChar* to, Grammar* grammar) {
 	if (tag[0] == 'R' && tag[1] == ':') {
 		UChar relname[256];
 		dep_parent = std::numeric_limits<uint32_t>::max();
-		if (u_sscanf(tag.data(), "R:%[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
+		if (u_sscanf(tag.data(), "R:%255[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
 			type |= T_RELATION;
 			Tag* reltag = grammar->allocateTag(relname);
 			comparison_hash = reltag->hash;
-- 
2.43.0


From 0ff9f2bcd08e5fccc466208c1e85d69213e999aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 23/77] fix: a lemma written as <something> made the Apertium
 and Matxin readers loop forever

---
 src/ApertiumApplicator.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 9fbc349..69caa65 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -613,7 +613,8 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 	while (!taglist.empty()) {
 		Reading* reading = cReading;
 		reverse_foreach (riter, taglist) {
-			if ((*riter)->type & T_BASEFORM) {
+			// The first tag is always a baseform, even if it looks like a wordform because the lemma is <something>
+			if (((*riter)->type & T_BASEFORM) || riter.base() - 1 == taglist.begin()) {
 				// If current reading already has a baseform, instead create a sub-reading as target
 				if (reading->baseform) {
 					Reading* nr = reading->allocateReading(reading->parent);
@@ -635,11 +636,11 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 				if (!mappings.empty()) {
 					splitMappings(mappings, *reading->parent, *reading, true);
 				}
-				// Remove tags from list
-				while (!taglist.empty() && !(taglist.back()->type & T_BASEFORM)) {
-					taglist.pop_back();
+				if (!reading->baseform) {
+					reading->baseform = (*riter)->hash;
 				}
-				taglist.pop_back();
+				// Remove tags from list
+				taglist.erase(riter.base() - 1, taglist.end());
 			}
 		}
 	}
-- 
2.43.0


From 77e4d232eb39f033280a8a0b3f91b42d5a84e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 24/77] fix: Matxin input that ended inside a cohort, or had a
 lemma like <something>, was read forever

---
 src/MatxinApplicator.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/MatxinApplicator.cpp b/src/MatxinApplicator.cpp
index bbd338b..2c0fb1d 100644
--- a/src/MatxinApplicator.cpp
+++ b/src/MatxinApplicator.cpp
@@ -243,7 +243,7 @@ void MatxinApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 			for (;;) {
 				inchar = u_fgetc(input);
 
-				if (inchar == '/' || inchar == '<') {
+				if (inchar == '/' || inchar == '<' || inchar == 0xffff) {
 					break;
 				}
 				else if (inchar == '\\') {
@@ -287,7 +287,7 @@ void MatxinApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 						tag.clear();
 						continue;
 					}
-					if (inchar == '/' || inchar == '$') {
+					if (inchar == '/' || inchar == '$' || inchar == 0xffff) {
 						break;
 					}
 					tag += inchar;
@@ -305,7 +305,7 @@ void MatxinApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 					continue;
 				}
 
-				if (inchar == '$') {
+				if (inchar == '$' || inchar == 0xffff) {
 					// Add the final reading of the cohort
 					cReading = alloc_reading(cCohort);
 
@@ -557,7 +557,8 @@ void MatxinApplicator::processReading(Reading* cReading, const UChar* reading_st
 	while (!taglist.empty()) {
 		Reading* reading = cReading;
 		reverse_foreach (riter, taglist) {
-			if ((*riter)->type & T_BASEFORM) {
+			// The first tag is always a baseform, even if it looks like a wordform because the lemma is <something>
+			if (((*riter)->type & T_BASEFORM) || riter.base() - 1 == taglist.begin()) {
 				// If current reading already has a baseform, instead create a sub-reading as target
 				if (reading->baseform) {
 					Reading* nr = reading->allocateReading(reading->parent);
@@ -578,11 +579,11 @@ void MatxinApplicator::processReading(Reading* cReading, const UChar* reading_st
 				if (!mappings.empty()) {
 					splitMappings(mappings, *reading->parent, *reading, true);
 				}
-				// Remove tags from list
-				while (!taglist.empty() && !(taglist.back()->type & T_BASEFORM)) {
-					taglist.pop_back();
+				if (!reading->baseform) {
+					reading->baseform = (*riter)->hash;
 				}
-				taglist.pop_back();
+				// Remove tags from list
+				taglist.erase(riter.base() - 1, taglist.end());
 			}
 		}
 	}
-- 
2.43.0


From 5f8845bb97ac51435953eab3dadd4f321179bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 25/77] fix: the last code point of a short or malformed input
 was looked for outside the buffer

---
 src/uextras.cpp | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 513ce3d..a5ac867 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -203,32 +203,32 @@ std::string read_utf8(std::istream& input, size_t BUF_SIZE) {
 
 	input.read(&buf8[0], BUF_SIZE - 4);
 	auto sz = static_cast<size_t>(input.gcount());
-	if (buf8[sz - 1] & 0x80) {
-		for (size_t i = sz - 1; ; --i) {
-			if ((buf8[i] & 0xF0) == 0xF0) {
-				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 3 - i)) {
-					throw std::runtime_error("Could not read expected bytes from stream");
-				}
-				sz += 3 - i;
-				break;
+	if (sz && (buf8[sz - 1] & 0x80)) {
+		// Complete the last code point, if the read stopped in the middle of one
+		size_t have = 0;
+		for (size_t i = sz; i > 0 && have <= 3; --i) {
+			auto c = static_cast<uint8_t>(buf8[i - 1]);
+			if ((c & 0xC0) == 0x80) {
+				++have;
+				continue;
 			}
-			else if ((buf8[i] & 0xE0) == 0xE0) {
-				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 2 - i)) {
-					throw std::runtime_error("Could not read expected bytes from stream");
-				}
-				sz += 2 - i;
-				break;
+			size_t need = 0;
+			if ((c & 0xF0) == 0xF0) {
+				need = 3;
+			}
+			else if ((c & 0xE0) == 0xE0) {
+				need = 2;
+			}
+			else if ((c & 0xC0) == 0xC0) {
+				need = 1;
 			}
-			else if ((buf8[i] & 0xC0) == 0xC0) {
-				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 1 - i)) {
+			if (need > have) {
+				if (!input.read(&buf8[sz], need - have)) {
 					throw std::runtime_error("Could not read expected bytes from stream");
 				}
-				sz += 1 - i;
-				break;
+				sz += need - have;
 			}
+			break;
 		}
 	}
 	buf8.resize(sz);
-- 
2.43.0


From d79ed6f4b36410fa7ff77e9c12444e2d69f3eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 26/77] fix: JSON parse diagnostics printed unrelated memory
 for the offset

---
 src/JsonlApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 493222c..3600472 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -334,7 +334,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		json::ParseResult ok = doc.Parse(line_str.c_str());
 
 		if (!ok) {
-			u_fprintf(ux_stderr, "Warning: Failed to parse JSON on line %u: %s (offset %zu). Skipping line.\n", numLines, json::GetParseError_En(ok.Code()), ok.Offset());
+			u_fprintf(ux_stderr, "Warning: Failed to parse JSON on line %u: %s (offset %u). Skipping line.\n", numLines, json::GetParseError_En(ok.Code()), UI32(ok.Offset()));
 			continue;
 		}
 
-- 
2.43.0


From 4505341ed2c0eddbe43ce369f081258a2e0c9a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 27/77] fix: tags starting with & were emptied in Apertium
 output, and a lone & was written past its end

---
 src/ApertiumApplicator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 69caa65..94ae9b3 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -765,8 +765,8 @@ void ApertiumApplicator::printReading(const Reading* reading, std::ostream& outp
 			if (tag->tag[0] == '+') {
 				u_fprintf(output, "%S", tag->tag.data());
 			}
-			else if (tag->tag[0] == '&') {
-				u_fprintf(output, "%S<%S%S>", escape.data(), substr(tag->tag, 2).data(), escape.data());
+			else if (tag->tag[0] == '&' && tag->tag[1] == '&') {
+				u_fprintf(output, "%S<%S%S>", escape.data(), tag->tag.data() + 2, escape.data());
 			}
 			else {
 				u_fprintf(output, "%S<%S%S>", escape.data(), tag->tag.data(), escape.data());
-- 
2.43.0


From 2d86ab314a9ca07fb6b4a9c594d0e084b53a403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 28/77] fix: an empty text in a binary stream indexed an empty
 buffer

---
 src/inlines.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inlines.hpp b/src/inlines.hpp
index a693e90..545bc7d 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -616,11 +616,11 @@ inline void readUTF8_LE(S& input, Str& rv) {
 	rv.clear();
 	rv.resize(len);
 	std::vector<char> buffer(len);
-	input.read(&buffer[0], len);
+	input.read(buffer.data(), len);
 
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
-	u_strFromUTF8(&rv[0], len, &olen, &buffer[0], len, &status);
+	u_strFromUTF8(&rv[0], len, &olen, buffer.data(), len, &status);
 
 	rv.resize(olen);
 }
-- 
2.43.0


From 6dc83f34c3e561f1f2128738fa7820d4c5317411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 29/77] fix: an empty text written to a binary stream was given
 a negative buffer size

---
 src/inlines.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/inlines.hpp b/src/inlines.hpp
index 545bc7d..764680f 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -556,11 +556,11 @@ inline void writeUTF8_Raw(std::ostream& output, const UChar* str, size_t len = 0
 	std::vector<char> buffer(len * 4);
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
-	u_strToUTF8(&buffer[0], SI32(len * 4 - 1), &olen, str, SI32(len), &status);
+	u_strToUTF8(buffer.data(), SI32(buffer.size()), &olen, str, SI32(len), &status);
 
 	auto cs = UI16(olen);
 	writeRaw(output, cs);
-	output.write(&buffer[0], cs);
+	output.write(buffer.data(), cs);
 }
 
 inline void writeUTF8_Raw(std::ostream& output, const UString& str) {
@@ -575,11 +575,11 @@ inline void writeUTF8_LE(std::ostream& output, const UChar* str, size_t len = 0)
 	std::vector<char> buffer(len * 4);
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
-	u_strToUTF8(&buffer[0], SI32(len * 4 - 1), &olen, str, SI32(len), &status);
+	u_strToUTF8(buffer.data(), SI32(buffer.size()), &olen, str, SI32(len), &status);
 
 	auto cs = UI16(olen);
 	writeLE(output, cs);
-	output.write(&buffer[0], cs);
+	output.write(buffer.data(), cs);
 }
 
 inline void writeUTF8_LE(std::ostream& output, const UString& str) {
@@ -597,11 +597,11 @@ inline UString readUTF8_Raw(S& input) {
 
 	UString rv(len, 0);
 	std::vector<char> buffer(len);
-	input.read(&buffer[0], len);
+	input.read(buffer.data(), len);
 
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
-	u_strFromUTF8(&rv[0], len, &olen, &buffer[0], len, &status);
+	u_strFromUTF8(&rv[0], len, &olen, buffer.data(), len, &status);
 
 	rv.resize(olen);
 
-- 
2.43.0


From 9ecf7d50dd8f902d76b4af64a25d1518c7e77c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 30/77] fix: output that could not be written was reported as
 success

---
 src/Grammar.cpp     |  4 ++++
 src/cg-comp.cpp     |  6 ++++--
 src/cg-conv.cpp     |  4 ++++
 src/cg-mwesplit.cpp |  4 ++++
 src/cg-proc.cpp     |  5 +++++
 src/cg-relabel.cpp  | 10 ++++++++--
 src/main.cpp        | 19 ++++++++++++++-----
 7 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 1dc50f4..6a8ec56 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -1102,6 +1102,10 @@ void Grammar::reindex(bool unused_sets, bool used_tags) {
 				u_fprintf(ux_stdout, "%S\n", tmp.data());
 			}
 		}
+		if (!ux_stdout->flush()) {
+			u_fprintf(ux_stderr, "Error: Could not write all output\n");
+			exit(1);
+		}
 		exit(0);
 	}
 }
diff --git a/src/cg-comp.cpp b/src/cg-comp.cpp
index b8bb42a..79c1c95 100644
--- a/src/cg-comp.cpp
+++ b/src/cg-comp.cpp
@@ -110,9 +110,11 @@ int main(int argc, char* argv[]) try {
 	if (gout) {
 		BinaryGrammar writer(grammar, std::cerr);
 		writer.writeBinaryGrammar(gout);
+		gout.close();
 	}
-	else {
-		std::cerr << "Could not write grammar to " << argv[2] << std::endl;
+	if (!gout) {
+		std::cerr << "Error: Could not write grammar to " << argv[2] << std::endl;
+		CG3Quit(1);
 	}
 
 	u_cleanup();
diff --git a/src/cg-conv.cpp b/src/cg-conv.cpp
index eef3f50..d991da5 100644
--- a/src/cg-conv.cpp
+++ b/src/cg-conv.cpp
@@ -245,6 +245,10 @@ int main(int argc, char* argv[]) try {
 	applicator.trace = true;
 	applicator.verbosity_level = 0;
 	applicator.runGrammarOnText(*instream, std::cout);
+	if (!std::cout.flush()) {
+		std::cerr << "Error: Could not write all output" << std::endl;
+		CG3Quit(1);
+	}
 
 	u_cleanup();
 }
diff --git a/src/cg-mwesplit.cpp b/src/cg-mwesplit.cpp
index 596aa99..c0d57a6 100644
--- a/src/cg-mwesplit.cpp
+++ b/src/cg-mwesplit.cpp
@@ -98,6 +98,10 @@ int main(int argc, char** argv) try {
 
 	applicator.verbosity_level = 0;
 	applicator.runGrammarOnText(std::cin, std::cout);
+	if (!std::cout.flush()) {
+		std::cerr << "Error: Could not write all output" << std::endl;
+		CG3Quit(1);
+	}
 
 	u_cleanup();
 }
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index b72362f..c4523ad 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -360,6 +360,11 @@ int main(int argc, char* argv[]) try {
 		exit(1);
 	}
 
+	if (!ux_stdout->flush()) {
+		std::cerr << "Error: Could not write all output" << std::endl;
+		CG3Quit(1);
+	}
+
 	u_cleanup();
 }
 catch (const std::exception& e) {
diff --git a/src/cg-relabel.cpp b/src/cg-relabel.cpp
index dc729a9..381e136 100644
--- a/src/cg-relabel.cpp
+++ b/src/cg-relabel.cpp
@@ -105,6 +105,10 @@ int main(int argc, char* argv[]) try {
 	std::unique_ptr<Grammar> grammar{ cg3_grammar_load(argv[1], std::cout, std::cerr, true) };
 	std::unique_ptr<Grammar> relabel_grammar{ cg3_grammar_load(argv[2], std::cout, std::cerr) };
 
+	if (!grammar || !relabel_grammar) {
+		CG3Quit(1);
+	}
+
 	Relabeller relabeller(*grammar, *relabel_grammar, std::cerr);
 	relabeller.relabel();
 
@@ -112,9 +116,11 @@ int main(int argc, char* argv[]) try {
 	if (gout) {
 		BinaryGrammar writer(*grammar, std::cerr);
 		writer.writeBinaryGrammar(gout);
+		gout.close();
 	}
-	else {
-		std::cerr << "Could not write grammar to " << argv[3] << std::endl;
+	if (!gout) {
+		std::cerr << "Error: Could not write grammar to " << argv[3] << std::endl;
+		CG3Quit(1);
 	}
 
 	u_cleanup();
diff --git a/src/main.cpp b/src/main.cpp
index 2f8f7c4..2d22ccd 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -34,6 +34,7 @@ int main(int argc, char* argv[]) try {
 	clock_t main_timer = clock();
 
 	UErrorCode status = U_ZERO_ERROR;
+	int rv = 0;
 	srand(UI32(time(0)));
 
 	argc = u_parseArgs(argc, argv, options.size(), options.data());
@@ -415,6 +416,10 @@ int main(int argc, char* argv[]) try {
 			applicator.profiler = profiler.get();
 		}
 		applicator.runGrammarOnText(*ux_stdin, *ux_stdout);
+		if (!ux_stdout->flush()) {
+			std::cerr << "Error: Could not write all output" << std::endl;
+			rv = 1;
+		}
 
 		if (options[VERBOSE].doesOccur) {
 			std::cerr << "Applying grammar on input took " << (clock() - main_timer) / (double)CLOCKS_PER_SEC << " seconds." << std::endl;
@@ -427,14 +432,16 @@ int main(int argc, char* argv[]) try {
 		if (gout) {
 			GrammarWriter writer(grammar, *ux_stderr);
 			writer.writeGrammar(gout);
+			gout.close();
 
 			if (options[VERBOSE].doesOccur) {
 				std::cerr << "Writing textual grammar took " << (clock() - main_timer) / (double)CLOCKS_PER_SEC << " seconds." << std::endl;
 			}
 			main_timer = clock();
 		}
-		else {
-			std::cerr << "Could not write grammar to " << options[GRAMMAR_OUT].value << std::endl;
+		if (!gout) {
+			std::cerr << "Error: Could not write grammar to " << options[GRAMMAR_OUT].value << std::endl;
+			rv = 1;
 		}
 	}
 
@@ -443,14 +450,16 @@ int main(int argc, char* argv[]) try {
 		if (gout) {
 			BinaryGrammar writer(grammar, *ux_stderr);
 			writer.writeBinaryGrammar(gout);
+			gout.close();
 
 			if (options[VERBOSE].doesOccur) {
 				std::cerr << "Writing binary grammar took " << (clock() - main_timer) / (double)CLOCKS_PER_SEC << " seconds." << std::endl;
 			}
 			main_timer = clock();
 		}
-		else {
-			std::cerr << "Could not write grammar to " << options[GRAMMAR_BIN].value << std::endl;
+		if (!gout) {
+			std::cerr << "Error: Could not write grammar to " << options[GRAMMAR_BIN].value << std::endl;
+			rv = 1;
 		}
 	}
 
@@ -465,7 +474,7 @@ int main(int argc, char* argv[]) try {
 		std::cerr << "Cleanup took " << (clock() - main_timer) / (double)CLOCKS_PER_SEC << " seconds." << std::endl;
 	}
 
-	return status;
+	return rv ? rv : status;
 }
 catch (const std::exception& e) {
 	std::cerr << "Error: " << e.what() << std::endl;
-- 
2.43.0


From b819d1cbcab32435ef6457d5dbde9a9c9e00923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 31/77] fix: tags, names and patterns longer than 8191 bytes
 were cut in, or overflowed, binary grammars

---
 src/BinaryGrammar_read.cpp  | 40 +++++++++++--------------------------
 src/BinaryGrammar_write.cpp | 32 ++++++-----------------------
 src/inlines.hpp             | 23 +++++++++++++++++++++
 3 files changed, 41 insertions(+), 54 deletions(-)

diff --git a/src/BinaryGrammar_read.cpp b/src/BinaryGrammar_read.cpp
index 9d37e63..53728ff 100644
--- a/src/BinaryGrammar_read.cpp
+++ b/src/BinaryGrammar_read.cpp
@@ -47,9 +47,6 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 	input.exceptions(std::ios::failbit | std::ios::eofbit | std::ios::badbit);
 
 	uint32_t u32tmp = 0;
-	int32_t i32tmp = 0;
-	UErrorCode err = U_ZERO_ERROR;
-	UConverter* conv = ucnv_open("UTF-8", &err);
 	std::stringstream buffer;
 
 	if (!input.read(&cbuffers[0][0], 4)) {
@@ -91,10 +88,8 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 	grammar->addcohort_attach = (fields & BINF_ADDCOHORT_ATTACH) != 0;
 
 	if (fields & BINF_PREFIX) {
-		ucnv_reset(conv);
 		u32tmp = readBE<uint32_t>(input);
-		input.read(&cbuffers[0][0], u32tmp);
-		i32tmp = ucnv_toUChars(conv, &grammar->mapping_prefix, 1, &cbuffers[0][0], u32tmp, &err);
+		grammar->mapping_prefix = readUTF8_BE(input, u32tmp)[0];
 	}
 
 	if (bin_revision >= BIN_REV_CMDARGS) {
@@ -170,28 +165,24 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 		if (fields & (1 << 8)) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
-				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
-				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
-				t->tag = &gbuffers[0][0];
+				auto str = readUTF8_BE(input, u32tmp);
+				t->tag = str;
 			}
 		}
 
 		if (fields & (1 << 9)) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
-				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
-				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
+				auto str = readUTF8_BE(input, u32tmp);
 
 				UParseError pe;
 				UErrorCode status = U_ZERO_ERROR;
 
 				if (t->type & T_CASE_INSENSITIVE) {
-					t->regexp = uregex_open(&gbuffers[0][0], i32tmp, UREGEX_CASE_INSENSITIVE, &pe, &status);
+					t->regexp = uregex_open(str.data(), SI32(str.size()), UREGEX_CASE_INSENSITIVE, &pe, &status);
 				}
 				else {
-					t->regexp = uregex_open(&gbuffers[0][0], i32tmp, 0, &pe, &status);
+					t->regexp = uregex_open(str.data(), SI32(str.size()), 0, &pe, &status);
 				}
 				if (status != U_ZERO_ERROR) {
 					u_fprintf(ux_stderr, "Error: uregex_open returned %s trying to parse tag %S - cannot continue!\n", u_errorName(status), t->tag.data());
@@ -217,10 +208,8 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 			for (size_t i = 0; i < num; ++i) {
 				u32tmp = readBE<uint32_t>(input);
 				if (u32tmp) {
-					ucnv_reset(conv);
-					input.read(&cbuffers[0][0], u32tmp);
-					i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
-					t->vs_names->push_back(&gbuffers[0][0]);
+					auto str = readUTF8_BE(input, u32tmp);
+					t->vs_names->push_back(str);
 				}
 			}
 		}
@@ -332,10 +321,8 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 		if (fields & (1 << 6)) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
-				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
-				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
-				s->setName(&gbuffers[0][0]);
+				auto str = readUTF8_BE(input, u32tmp);
+				s->setName(str);
 			}
 		}
 		grammar->sets_list[s->number] = s;
@@ -406,10 +393,8 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 		if (fields & (1 << 4)) {
 			u32tmp = readBE<uint32_t>(input);
 			if (u32tmp) {
-				ucnv_reset(conv);
-				input.read(&cbuffers[0][0], u32tmp);
-				i32tmp = ucnv_toUChars(conv, &gbuffers[0][0], CG3_BUFFER_SIZE - 1, &cbuffers[0][0], u32tmp, &err);
-				r->setName(&gbuffers[0][0]);
+				auto str = readUTF8_BE(input, u32tmp);
+				r->setName(str.data());
 			}
 		}
 		if (fields & (1 << 5)) {
@@ -517,7 +502,6 @@ int BinaryGrammar::parse_grammar(std::istream& input) {
 		}
 	}
 
-	ucnv_close(conv);
 	return 0;
 }
 
diff --git a/src/BinaryGrammar_write.cpp b/src/BinaryGrammar_write.cpp
index 4b85b08..141115c 100644
--- a/src/BinaryGrammar_write.cpp
+++ b/src/BinaryGrammar_write.cpp
@@ -38,7 +38,6 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 	uint32_t u32tmp = 0;
 	int32_t i32tmp = 0;
 	UErrorCode err = U_ZERO_ERROR;
-	UConverter* conv = ucnv_open("UTF-8", &err);
 	std::ostringstream buffer;
 
 	output.write("CG3B", 4);
@@ -104,10 +103,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 	writeBE(output, fields);
 
 	if (grammar->mapping_prefix) {
-		ucnv_reset(conv);
-		i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, &grammar->mapping_prefix, 1, &err);
-		writeBE(output, UI32(i32tmp));
-		output.write(&cbuffers[0][0], i32tmp);
+		writeUTF8_BE(output, &grammar->mapping_prefix, 1);
 	}
 
 	i32tmp = SI32(grammar->cmdargs.size());
@@ -168,20 +164,14 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 
 		if (!t->tag.empty()) {
 			fields |= (1 << 8);
-			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, t->tag.data(), SI32(t->tag.size()), &err);
-			writeBE(buffer, i32tmp);
-			buffer.write(&cbuffers[0][0], i32tmp);
+			writeUTF8_BE(buffer, t->tag.data(), SI32(t->tag.size()));
 		}
 
 		if (t->regexp) {
 			fields |= (1 << 9);
 			int32_t len = 0;
 			const UChar* p = uregex_pattern(t->regexp, &len, &err);
-			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, p, len, &err);
-			writeBE(buffer, i32tmp);
-			buffer.write(&cbuffers[0][0], i32tmp);
+			writeUTF8_BE(buffer, p, len);
 		}
 
 		if (t->vs_sets) {
@@ -195,10 +185,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 			fields |= (1 << 11);
 			writeBE<uint32_t>(buffer, UI32(t->vs_names->size()));
 			for (const auto& iter : *t->vs_names) {
-				ucnv_reset(conv);
-				i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, iter.data(), SI32(iter.size()), &err);
-				writeBE(buffer, i32tmp);
-				buffer.write(&cbuffers[0][0], i32tmp);
+				writeUTF8_BE(buffer, iter.data(), SI32(iter.size()));
 			}
 		}
 		// 1 << 12 used above
@@ -289,10 +276,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 		}
 		if (s->type & ST_STATIC) {
 			fields |= (1 << 6);
-			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, s->name.data(), SI32(s->name.size()), &err);
-			writeBE(buffer, i32tmp);
-			buffer.write(&cbuffers[0][0], i32tmp);
+			writeUTF8_BE(buffer, s->name.data(), SI32(s->name.size()));
 		}
 
 		writeBE(output, fields);
@@ -352,10 +336,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 		}
 		if (!r->name.empty()) {
 			fields |= (1 << 4);
-			ucnv_reset(conv);
-			i32tmp = ucnv_fromUChars(conv, &cbuffers[0][0], CG3_BUFFER_SIZE - 1, r->name.data(), SI32(r->name.size()), &err);
-			writeBE(buffer, i32tmp);
-			buffer.write(&cbuffers[0][0], i32tmp);
+			writeUTF8_BE(buffer, r->name.data(), SI32(r->name.size()));
 		}
 		if (r->target) {
 			fields |= (1 << 5);
@@ -434,7 +415,6 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 		}
 	}
 
-	ucnv_close(conv);
 	return 0;
 }
 
diff --git a/src/inlines.hpp b/src/inlines.hpp
index 764680f..3b2aecb 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -512,6 +512,16 @@ inline void writeBE(std::ostream& stream, double value) {
 	writeBE(stream, exp32);
 }
 
+inline void writeUTF8_BE(std::ostream& output, const UChar* str, int32_t len) {
+	std::string buffer(static_cast<size_t>(len) * 3, 0);
+	int32_t olen = 0;
+	UErrorCode status = U_ZERO_ERROR;
+	u_strToUTF8WithSub(&buffer[0], SI32(buffer.size()), &olen, str, len, 0xFFFD, nullptr, &status);
+
+	writeBE(output, UI32(olen));
+	output.write(buffer.data(), olen);
+}
+
 template<typename S, typename T>
 inline void writeLE(S& stream, T value) {
 	value = be::native_to_little(value);
@@ -535,6 +545,19 @@ inline double readBE(std::istream& stream) {
 	return ldexp(value, exp);
 }
 
+inline UString readUTF8_BE(std::istream& input, uint32_t len) {
+	std::string buffer(len, 0);
+	input.read(&buffer[0], len);
+
+	UString rv(len, 0);
+	int32_t olen = 0;
+	UErrorCode status = U_ZERO_ERROR;
+	u_strFromUTF8WithSub(&rv[0], SI32(len), &olen, buffer.data(), SI32(len), 0xFFFD, nullptr, &status);
+	rv.resize(olen);
+
+	return rv;
+}
+
 template<typename S, typename T>
 inline void readLE(S& stream, T& value) {
 	readRaw(stream, value);
-- 
2.43.0


From fb0cf10711747875ead5cf028aca9de32fd662be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 32/77] fix: grammar parsing buffers were too small for long
 names and for short included grammars

---
 src/TextualParser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 96adfad..0107219 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -1843,6 +1843,11 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 		u_fprintf(ux_stderr, "%s: Error: Input is empty - cannot continue!\n", fname);
 		CG3Quit(1);
 	}
+	// Any single name or tag may be as long as the input itself
+	auto input_len = static_cast<size_t>(u_strlen(input)) + 1;
+	if (gbuffers[0].size() < input_len) {
+		gbuffers[0].resize(input_len);
+	}
 	if (profiler) {
 		parse_ast = true;
 	}
@@ -2695,7 +2700,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					}
 				}
 
-				grammarbufs.emplace_back(new UString(grammar_size * 2, 0));
+				grammarbufs.emplace_back(new UString(grammar_size * 2 + 8, 0));
 				auto& data = *grammarbufs.back().get();
 				int32_t size = 0;
 				u_strFromUTF8(&data[4], SI32(grammar_size * 2), &size, buf.data(), SI32(buf.size()), &err);
@@ -2902,7 +2907,7 @@ int TextualParser::parse_grammar(const char* fname) {
 	}
 
 	// It reads into the buffer at offset 4 because certain functions may look back, so we need some nulls in front.
-	grammarbufs.emplace_back(new UString(result->grammar_size * 2, 0));
+	grammarbufs.emplace_back(new UString(result->grammar_size * 2 + 8, 0));
 	auto& data = *grammarbufs.back().get();
 	int32_t size = 0;
 	UErrorCode err = U_ZERO_ERROR;
@@ -2921,7 +2926,7 @@ int TextualParser::parse_grammar(const char* buffer, size_t length) {
 	filebase = "<utf8-memory>";
 	result->grammar_size = length;
 
-	grammarbufs.emplace_back(new UString(length * 2, 0));
+	grammarbufs.emplace_back(new UString(length * 2 + 8, 0));
 	auto& data = *grammarbufs.back().get();
 
 	int32_t size = 0;
-- 
2.43.0


From 66536a94d9caaa84bfe88d56e016d82f2d2078ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 33/77] fix: tags about the cohort dereferenced a missing
 cohort when matched against a bag of tags

---
 src/GrammarApplicator_matchSet.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 7b6e5d9..1ea1fc6 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -363,6 +363,19 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 	uint32_t retval = 0;
 	uint32_t match = 0;
 
+	// A bag of tags does not belong to a cohort, so tags that ask about the cohort cannot match it
+	if (!reading.parent) {
+		if (tag.type & (T_META | T_PAR_LEFT | T_PAR_RIGHT | T_ENCL)) {
+			return 0;
+		}
+		if ((tag.type & T_REGEXP_ANY) && (tag.type & T_WORDFORM)) {
+			return 0;
+		}
+		if ((tag.type & T_NUMERICAL) && ((tag.type & T_NUMERIC_MATH) || tag.comparison_val <= NUMERIC_MIN || tag.comparison_val >= NUMERIC_MAX)) {
+			return 0;
+		}
+	}
+
 	if (!(tag.type & T_SPECIAL) || tag.type & T_FAILFAST) {
 		uint32SortedVector::const_iterator itf, ite = reading.tags_plain.end();
 		bool raw_in = reading.tags_plain_bloom.matches(tag.hash);
@@ -483,7 +496,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 	else if (tag.type & (T_VARIABLE|T_LOCAL_VARIABLE)) {
 		match = 0;
 		auto& vars = [&]() -> auto& {
-			if (reading.parent->parent == gWindow->current || !(tag.type & T_LOCAL_VARIABLE)) {
+			if (!reading.parent || reading.parent->parent == gWindow->current || !(tag.type & T_LOCAL_VARIABLE)) {
 				return variables;
 			}
 			return reading.parent->parent->variables_set;
-- 
2.43.0


From 6993dc47da5ee07a101352a5dff4ce46cb31a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 34/77] fix: running out of memory while dropping unused
 contexts led to a double delete

---
 src/Grammar.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 6a8ec56..fa9762f 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -821,11 +821,14 @@ void Grammar::reindex(bool unused_sets, bool used_tags) {
 		for (auto& cntx : contexts) {
 			if (cntx.second->is_used) {
 				tosave[cntx.first] = cntx.second;
-				continue;
 			}
-			delete cntx.second;
 		}
 		contexts.swap(tosave);
+		for (auto& cntx : tosave) {
+			if (!cntx.second->is_used) {
+				delete cntx.second;
+			}
+		}
 	}
 
 	if (unused_sets) {
-- 
2.43.0


From 0a547cad471592549ff9b4c8ed49d0105b141973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 35/77] fix: running out of memory in a stream buffer was
 ignored and the truncated result reported as success

---
 src/BinaryGrammar_write.cpp | 2 ++
 src/GrammarApplicator.cpp   | 3 +++
 src/JsonlApplicator.cpp     | 4 ++++
 src/libcg3.cpp              | 2 ++
 4 files changed, 11 insertions(+)

diff --git a/src/BinaryGrammar_write.cpp b/src/BinaryGrammar_write.cpp
index 141115c..ab1b400 100644
--- a/src/BinaryGrammar_write.cpp
+++ b/src/BinaryGrammar_write.cpp
@@ -39,6 +39,7 @@ int BinaryGrammar::writeBinaryGrammar(std::ostream& output) {
 	int32_t i32tmp = 0;
 	UErrorCode err = U_ZERO_ERROR;
 	std::ostringstream buffer;
+	buffer.exceptions(std::ios::badbit); // Do not go on with half a buffer if memory runs out
 
 	output.write("CG3B", 4);
 
@@ -435,6 +436,7 @@ void BinaryGrammar::writeContextualTest(ContextualTest* t, std::ostream& output)
 	}
 
 	std::ostringstream buffer;
+	buffer.exceptions(std::ios::badbit); // Do not go on with half a buffer if memory runs out
 	uint32_t fields = 0;
 
 	if (t->hash) {
diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index cc21a37..fc33e4f 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -599,6 +599,7 @@ void GrammarApplicator::printSingleWindow(SingleWindow* window, std::ostream& ou
 
 void GrammarApplicator::pipeOutReading(const Reading* reading, std::ostream& output) {
 	std::ostringstream ss;
+	ss.exceptions(std::ios::badbit); // Do not go on with half a buffer if memory runs out
 
 	uint32_t flags = 0;
 
@@ -650,6 +651,7 @@ void GrammarApplicator::pipeOutReading(const Reading* reading, std::ostream& out
 
 void GrammarApplicator::pipeOutCohort(const Cohort* cohort, std::ostream& output) {
 	std::ostringstream ss;
+	ss.exceptions(std::ios::badbit); // Do not go on with half a buffer if memory runs out
 
 	writeRaw(ss, cohort->global_number);
 
@@ -685,6 +687,7 @@ void GrammarApplicator::pipeOutCohort(const Cohort* cohort, std::ostream& output
 
 void GrammarApplicator::pipeOutSingleWindow(const SingleWindow& window, Process& output) {
 	std::ostringstream ss;
+	ss.exceptions(std::ios::badbit); // Do not go on with half a buffer if memory runs out
 
 	writeRaw(ss, window.number);
 
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 3600472..0a9cde6 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -541,6 +541,10 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 			cCohort = nullptr;
 		}
 	}
+	if (input.bad()) {
+		// std::getline() swallows exceptions, such as running out of memory for the line
+		throw std::runtime_error("Input line could not be read");
+	}
 
 	if (cSWindow && !cSWindow->cohorts.empty()) {
 		auto lastCohort = cSWindow->cohorts.back();
diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 9efabb6..c7b9ce4 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -307,6 +307,7 @@ size_t cg3_run_grammar_on_buffer(cg3_applicator* applicator_, const char* input,
 	std::string istr(input, in_length);
 	std::istringstream is(istr);
 	std::ostringstream os;
+	os.exceptions(std::ios::badbit); // Do not go on with half the output if memory runs out
 	applicator->runGrammarOnText(is, os);
 	// Ideally we would write directly to output without copying,
 	// but I couldn't figure out how to do that, and this is good
@@ -322,6 +323,7 @@ size_t cg3_run_grammar_on_buffer_binary(cg3_applicator* applicator_, const char*
 	std::string istr(input, in_length);
 	std::istringstream is(istr);
 	std::ostringstream os;
+	os.exceptions(std::ios::badbit); // Do not go on with half the output if memory runs out
 	applicator->runGrammarOnText(is, os);
 	// Ideally we would write directly to output without copying,
 	// but I couldn't figure out how to do that, and this is good
-- 
2.43.0


From 2b3d02607f8c8e2fb7649ed9c0fb1e6f1343019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 36/77] fix: ignored readings of a removed cohort turned up in
 later windows

---
 src/Cohort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Cohort.cpp b/src/Cohort.cpp
index b515dc6..111f4e1 100644
--- a/src/Cohort.cpp
+++ b/src/Cohort.cpp
@@ -129,6 +129,7 @@ void Cohort::clear() {
 	readings.clear();
 	deleted.clear();
 	delayed.clear();
+	ignored.clear();
 	wread = nullptr;
 }
 
-- 
2.43.0


From fbc5e35254f4cc7d07c5494543dcc53c5aa754ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 37/77] fix: JSONL input gave the last window to the grammar
 twice

---
 src/JsonlApplicator.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 0a9cde6..4dbc212 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -558,9 +558,6 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
 	}
-	if (gWindow->current) {
-		runGrammarOnWindow();
-	}
 
 	gWindow->shuffleWindowsDown();
 	while (!gWindow->previous.empty()) {
-- 
2.43.0


From 53e93eba06c42725dd835d2c36a640870ca26c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 38/77] fix: text after a removed cohort was lost in JSONL
 output

---
 src/JsonlApplicator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 4dbc212..ef54455 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -649,6 +649,10 @@ void JsonlApplicator::buildJsonReading(const Reading* reading, json::Value& read
 
 void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool profiling) {
 	if (cohort->local_number == 0 || (cohort->type & CT_REMOVED)) {
+		// The text after a removed cohort is still part of the stream
+		if (!cohort->text.empty()) {
+			printPlainTextLine(cohort->text, output);
+		}
 		return;
 	}
 
-- 
2.43.0


From 7471c090e9fcdc7014e3ff6e7efa259ce31da33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 39/77] fix: cg-conv from FST to the binary format lost
 everything

---
 src/FSTApplicator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 804d4da..6535272 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -279,7 +279,8 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 			if (cCohort && cCohort->readings.empty()) {
 				initEmptyCohort(*cCohort);
 			}
-			if (is_conv) {
+			// The binary format can only hold whole windows
+			if (is_conv && fmt_output != CG3SF_BINARY) {
 				if (cCohort) {
 					cCohort->local_number = 1;
 					printCohort(cCohort, output);
-- 
2.43.0


From 4f79c883cf7afa537ed6bc381c53831d588d52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 40/77] fix: text delimiter after a soft limit break was put in
 the window before its own

---
 src/GrammarApplicator_runGrammar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 3803642..714ccdd 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -229,6 +229,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						did_soft_lookback = false;
 						Cohort* cohort = delimitAt(*cSWindow, c);
 						cSWindow = cohort->parent->next;
+						lSWindow = cSWindow;
 						if (cCohort) {
 							cCohort->parent = cSWindow;
 						}
-- 
2.43.0


From 2fc2b127d5a01768a9d0eb77db243f7ac3266857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 41/77] fix: text, tags or tag tables too large for the binary
 formats were silently cut, which broke the stream

---
 src/BinaryApplicator.cpp | 6 ++++++
 src/inlines.hpp          | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index f0c6591..a9d6979 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -432,6 +432,9 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 
 	auto WRITE_TAG_INTO = [&](Tag* tag, std::string& buffer) {
 		if (tag_index.find(tag) == tag_index.end()) {
+			if (tags_to_write.size() >= std::numeric_limits<uint16_t>::max()) {
+				throw std::runtime_error("Window has too many different tags for the binary format");
+			}
 			tag_index[tag] = UI16(tags_to_write.size());
 			tags_to_write.push_back(tag);
 		}
@@ -444,6 +447,9 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 		UErrorCode status = U_ZERO_ERROR;
 		u_strToUTF8(&tmp[0], SI32(s.size() * 4 - 1), &olen, s.data(), SI32(s.size()), &status);
 		tmp.resize(olen);
+		if (olen > std::numeric_limits<uint16_t>::max()) {
+			throw std::runtime_error("Text or tag is too long for the binary format");
+		}
 		WRITE_U16_INTO(UI16(olen), buffer);
 		buffer += tmp;
 	};
diff --git a/src/inlines.hpp b/src/inlines.hpp
index 3b2aecb..ce631cf 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -581,6 +581,9 @@ inline void writeUTF8_Raw(std::ostream& output, const UChar* str, size_t len = 0
 	UErrorCode status = U_ZERO_ERROR;
 	u_strToUTF8(buffer.data(), SI32(buffer.size()), &olen, str, SI32(len), &status);
 
+	if (olen > std::numeric_limits<uint16_t>::max()) {
+		throw std::runtime_error("Text is too long for the binary format");
+	}
 	auto cs = UI16(olen);
 	writeRaw(output, cs);
 	output.write(buffer.data(), cs);
@@ -600,6 +603,9 @@ inline void writeUTF8_LE(std::ostream& output, const UChar* str, size_t len = 0)
 	UErrorCode status = U_ZERO_ERROR;
 	u_strToUTF8(buffer.data(), SI32(buffer.size()), &olen, str, SI32(len), &status);
 
+	if (olen > std::numeric_limits<uint16_t>::max()) {
+		throw std::runtime_error("Text is too long for the binary format");
+	}
 	auto cs = UI16(olen);
 	writeLE(output, cs);
 	output.write(buffer.data(), cs);
-- 
2.43.0


From 06dac9bfbab2ff3e7a2f6f087f5de9e8169248de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 42/77] fix: comma-separated lists in JSONL SETVAR and REMVAR
 were taken as one name

---
 src/JsonlApplicator.cpp | 51 +++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index ef54455..f3ca332 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -281,6 +281,17 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 	uint32FlatHashSet variables_rem;
 	uint32SortedVector variables_output;
 
+	// SETVAR and REMVAR take a comma-separated list
+	auto for_each_variable = [](const UString& list, auto&& fn) {
+		for (size_t b = 0; b <= list.size();) {
+			auto e = std::min(list.find(u',', b), list.size());
+			if (e != b) {
+				fn(list.substr(b, e - b));
+			}
+			b = e + 1;
+		}
+	};
+
 	// Print any remaining 'global' variables that were set/rem'd after the last window was finalized
 	auto print_variables = [&]() {
 		for (auto var : variables_output) {
@@ -413,29 +424,29 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				}
 				else if (u_strncmp(cmd_ustr.data(), STR_CMD_SETVAR.data(), SI32(STR_CMD_SETVAR.size())) == 0) {
 					auto cmd_payload = cmd_ustr.substr(STR_CMD_SETVAR.size(), cmd_ustr.size() - STR_CMD_SETVAR.size() -1); // Remove <STREAMCMD:SETVAR: and >
-					auto equals_pos = cmd_payload.find(u'=');
-					Tag* key_tag;
-					uint32_t value_hash;
-
-					if (equals_pos != UString::npos) {
-						auto key_str = cmd_payload.substr(0, equals_pos);
-						auto value_str = cmd_payload.substr(equals_pos + 1);
-						key_tag = addTag(key_str);
-						value_hash = addTag(value_str)->hash;
-					} else {
-						key_tag = addTag(cmd_payload);
-						value_hash = grammar->tag_any;
-					}
-					variables_set[key_tag->hash] = value_hash;
-					variables_rem.erase(key_tag->hash);
-					variables_output.insert(key_tag->hash);
+					for_each_variable(cmd_payload, [&](const UString& item) {
+						auto equals_pos = item.find(u'=');
+						uint32_t key_hash = grammar->tag_any, value_hash = grammar->tag_any;
+
+						if (equals_pos != 0) {
+							key_hash = addTag(item.substr(0, equals_pos))->hash;
+						}
+						if (equals_pos != UString::npos && equals_pos + 1 < item.size()) {
+							value_hash = addTag(item.substr(equals_pos + 1))->hash;
+						}
+						variables_set[key_hash] = value_hash;
+						variables_rem.erase(key_hash);
+						variables_output.insert(key_hash);
+					});
 				}
 				else if (u_strncmp(cmd_ustr.data(), STR_CMD_REMVAR.data(), SI32(STR_CMD_REMVAR.size())) == 0) {
 					auto cmd_payload = cmd_ustr.substr(STR_CMD_REMVAR.size(), cmd_ustr.size() - STR_CMD_REMVAR.size() -1); // Remove <STREAMCMD:REMVAR: and >
-					auto key_tag = addTag(cmd_payload);
-					variables_set.erase(key_tag->hash);
-					variables_rem.insert(key_tag->hash);
-					variables_output.insert(key_tag->hash);
+					for_each_variable(cmd_payload, [&](const UString& item) {
+						auto key_tag = addTag(item);
+						variables_set.erase(key_tag->hash);
+						variables_rem.insert(key_tag->hash);
+						variables_output.insert(key_tag->hash);
+					});
 				}
 			}
 			else {
-- 
2.43.0


From 27a324d38d175b1c497064adba4a473caa06711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 43/77] fix: SETVAR without a value was visible in windows that
 precede it

---
 src/ApertiumApplicator.cpp           | 7 ++-----
 src/ApertiumApplicator.hpp           | 2 +-
 src/GrammarApplicator_runGrammar.cpp | 3 ---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 94ae9b3..aa1ca84 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -34,7 +34,7 @@ ApertiumApplicator::ApertiumApplicator(std::ostream& ux_err)
 {
 }
 
-void ApertiumApplicator::parseStreamVar(const SingleWindow* cSWindow, UString& cleaned, uint32FlatHashMap& variables_set, uint32FlatHashSet& variables_rem, uint32SortedVector& variables_output) {
+void ApertiumApplicator::parseStreamVar(UString& cleaned, uint32FlatHashMap& variables_set, uint32FlatHashSet& variables_rem, uint32SortedVector& variables_output) {
 	if (u_strncmp(&cleaned[0], STR_CMD_SETVAR.data(), SI32(STR_CMD_SETVAR.size())) == 0) {
 		// u_fprintf(ux_stderr, "Info: SETVAR encountered on line %u.\n", numLines);
 
@@ -46,9 +46,6 @@ void ApertiumApplicator::parseStreamVar(const SingleWindow* cSWindow, UString& c
 			variables_set[tag->hash] = grammar->tag_any;
 			variables_rem.erase(tag->hash);
 			variables_output.insert(tag->hash);
-			if (cSWindow == nullptr) {
-				variables[tag->hash] = grammar->tag_any;
-			}
 		}
 		else {
 			uint32_t a = 0, b = 0;
@@ -319,7 +316,7 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			if (blank.size() > 14 // contains at least "[<STREAMCMD:>]"
 			    && blank[1] == '<' && blank[blank.size() - 2] == '>') {
 				auto cleaned = blank.substr(1, blank.size() - 3);
-				parseStreamVar(cSWindow, cleaned, variables_set, variables_rem, variables_output);
+				parseStreamVar(cleaned, variables_set, variables_rem, variables_output);
 			}
 		}
 		else if (!in_blank && c == '$') {
diff --git a/src/ApertiumApplicator.hpp b/src/ApertiumApplicator.hpp
index f4d2dea..3b57a4f 100644
--- a/src/ApertiumApplicator.hpp
+++ b/src/ApertiumApplicator.hpp
@@ -58,7 +58,7 @@ private:
 	 *
 	 * @param cleaned something like "<STREAMCMD:SETVAR:forskjell_skilnad" (note: no trailing >).
 	 */
-	void parseStreamVar(const SingleWindow* cSWindow, UString& cleaned, uint32FlatHashMap& variables_set, uint32FlatHashSet& variables_rem, uint32SortedVector& variables_output);
+	void parseStreamVar(UString& cleaned, uint32FlatHashMap& variables_set, uint32FlatHashSet& variables_rem, uint32SortedVector& variables_output);
 	void printReading(const Reading* reading, std::ostream& output, ApertiumCasing casing, int32_t firstlower);
 	void processReading(Reading* cReading, UChar* reading_string, Tag* wform);
 	void processReading(Reading* cReading, UString& reading_string, Tag* wform);
diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 714ccdd..cc16216 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -600,9 +600,6 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						variables_set[tag->hash] = grammar->tag_any;
 						variables_rem.erase(tag->hash);
 						variables_output.insert(tag->hash);
-						if (cSWindow == nullptr) {
-							variables[tag->hash] = grammar->tag_any;
-						}
 					}
 					else {
 						uint32_t a = 0, b = 0;
-- 
2.43.0


From bcc71b3633cf1df2267397852711e70997ec4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 44/77] fix: Apertium SETVAR and REMVAR were not seen unless
 they were the whole blank

---
 src/ApertiumApplicator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index aa1ca84..b4d16b1 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -168,6 +168,7 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 
 	UChar c = 0;        // Current character
 	bool in_blank = false;   // Are we in a superblank ?
+	size_t blank_start = 0;  // Where in the blank did the superblank start
 	bool in_wblank = false;  // Are we in a word-bound blank ?
 	bool in_cohort = false;  // Are we in a cohort ?
 	UString blank;           // Blank between tokens, including superblanks
@@ -295,6 +296,9 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			if (in_blank) {
 				in_wblank = true;
 			}
+			else {
+				blank_start = blank.size();
+			}
 			in_blank = true;
 		}
 		else if (!in_blank && c == '^') {
@@ -313,9 +317,9 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 		}
 		else if (in_blank && c == ']') {
 			in_blank = false;
-			if (blank.size() > 14 // contains at least "[<STREAMCMD:>]"
-			    && blank[1] == '<' && blank[blank.size() - 2] == '>') {
-				auto cleaned = blank.substr(1, blank.size() - 3);
+			if (blank.size() - blank_start > 14 // contains at least "[<STREAMCMD:>]"
+			    && blank[blank_start + 1] == '<' && blank[blank.size() - 2] == '>') {
+				auto cleaned = blank.substr(blank_start + 1, blank.size() - blank_start - 3);
 				parseStreamVar(cleaned, variables_set, variables_rem, variables_output);
 			}
 		}
-- 
2.43.0


From 9ccfeb12ad95308c3345939537a259d11f1cb9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 45/77] fix: JSONL text without a final newline swallowed the
 line after it in CG output

---
 src/GrammarApplicator.cpp |  6 ++++++
 src/JsonlApplicator.cpp   | 11 +++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index fc33e4f..f86b984 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -581,6 +581,9 @@ void GrammarApplicator::printSingleWindow(SingleWindow* window, std::ostream& ou
 
 	if (!window->text.empty() && window->text.find_first_not_of(ws) != UString::npos) {
 		printPlainTextLine(window->text, output);
+		if (!ISNL(window->text.back())) {
+			u_fputc('\n', output);
+		}
 	}
 
 	for (auto& cohort : window->all_cohorts) {
@@ -589,6 +592,9 @@ void GrammarApplicator::printSingleWindow(SingleWindow* window, std::ostream& ou
 
 	if (!window->text_post.empty() && window->text_post.find_first_not_of(ws) != UString::npos) {
 		printPlainTextLine(window->text_post, output);
+		if (!ISNL(window->text_post.back())) {
+			u_fputc('\n', output);
+		}
 	}
 
 	if (window->flush_after) {
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index f3ca332..ef4d325 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -316,6 +316,13 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		variables_rem.clear();
 		variables_output.clear();
 	};
+	// Text needs not end in a newline here, but does in line-based formats
+	auto print_text = [&](UString& text) {
+		if (fmt_output != CG3SF_JSONL && fmt_output != CG3SF_APERTIUM && fmt_output != CG3SF_MATXIN && !ISNL(text.back())) {
+			text += '\n';
+		}
+		printPlainTextLine(text, output);
+	};
 	// Binary has no commands for variables, so there they need a window
 	auto binary_variables = [&]() {
 		if (fmt_output == CG3SF_BINARY && !variables_output.empty()) {
@@ -459,7 +466,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 			if (doc.HasMember("t")) {
 				auto t_ustr = json_to_ustring(doc["t"]);
 				if (!t_ustr.empty()) {
-					printPlainTextLine(t_ustr, output);
+					print_text(t_ustr);
 				}
 			}
 			continue;
@@ -478,7 +485,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 					lSWindow->text += t_ustr;
 				}
 				else {
-					printPlainTextLine(t_ustr, output);
+					print_text(t_ustr);
 				}
 			}
 			else {
-- 
2.43.0


From 8ea11386ac7c5f319cff97c153dfefea23c9af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 46/77] fix: JSONL input between IGNORE and RESUME was lost
 except for text

---
 src/JsonlApplicator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index ef4d325..6afa26a 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -463,12 +463,19 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		}
 
 		if (ignoreinput) {
-			if (doc.HasMember("t")) {
+			if (fmt_output == CG3SF_JSONL) {
+				output << line_str << "\n";
+			}
+			else if (doc.HasMember("t") && !doc.HasMember("w")) {
 				auto t_ustr = json_to_ustring(doc["t"]);
 				if (!t_ustr.empty()) {
 					print_text(t_ustr);
 				}
 			}
+			else {
+				auto line_ustr = json_to_ustring(json::Value(json::StringRef(line_str.data(), UI32(line_str.size()))));
+				print_text(line_ustr);
+			}
 			continue;
 		}
 
-- 
2.43.0


From 6243174bc06a8ed1fc50eee24b92931d11785fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 47/77] fix: variables moved or got lost when converting, and
 at the end of Apertium input

---
 src/ApertiumApplicator.cpp           | 13 +++++++++++++
 src/GrammarApplicator_runGrammar.cpp | 24 ++++++++++++++++++++++++
 src/JsonlApplicator.cpp              | 13 +++++++++++++
 src/cg-proc.cpp                      |  1 +
 4 files changed, 51 insertions(+)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index b4d16b1..44ca35b 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -210,6 +210,15 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 	auto flush = [&](bool n = false) {
 		ensure_endtag();
 
+		// The blanks only hold the commands of variables in this format, so others need a window for those left over
+		if (!variables_output.empty() && (fmt_output == CG3SF_CG || fmt_output == CG3SF_JSONL || fmt_output == CG3SF_BINARY)) {
+			cSWindow = gWindow->allocAppendSingleWindow();
+			initEmptySingleWindow(cSWindow);
+			cSWindow->variables_set = variables_set;
+			cSWindow->variables_rem = variables_rem;
+			cSWindow->variables_output = variables_output;
+		}
+
 		auto backSWindow = n ? gWindow->back() : nullptr;
 		if (backSWindow) {
 			backSWindow->flush_after = true;
@@ -321,6 +330,10 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			    && blank[blank_start + 1] == '<' && blank[blank.size() - 2] == '>') {
 				auto cleaned = blank.substr(blank_start + 1, blank.size() - blank_start - 3);
 				parseStreamVar(cleaned, variables_set, variables_rem, variables_output);
+				if (is_conv && !variables_output.empty()) {
+					// When converting, windows mean nothing but variables must stay where they are, so begin a new window for them
+					cSWindow = nullptr;
+				}
 			}
 		}
 		else if (!in_blank && c == '$') {
diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index cc16216..7a23d0c 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -154,6 +154,28 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 		variables_output.clear();
 	};
 
+	// When converting, windows mean nothing but variables must stay where they are, so begin a new window for them
+	auto maybe_break_window = [&]() {
+		if (!is_conv || !cSWindow || !cCohort) {
+			return;
+		}
+		if (cCohort->readings.empty()) {
+			initEmptyCohort(*cCohort);
+		}
+		for (auto iter : cCohort->readings) {
+			addTagToReading(*iter, endtag);
+		}
+		splitAllMappings(all_mappings, *cCohort, true);
+		cSWindow->appendCohort(cCohort);
+		cSWindow = gWindow->allocAppendSingleWindow();
+		initEmptySingleWindow(cSWindow);
+		lSWindow = cSWindow;
+		cReading = lReading = nullptr;
+		cCohort = lCohort = nullptr;
+		++numWindows;
+		did_soft_lookback = false;
+	};
+
 	// Print variables that were set or removed after the last window
 	auto print_variables = [&]() {
 		for (auto var : variables_output) {
@@ -591,6 +613,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					is_cmd = true;
 					cleaned[packoff - 1] = 0;
 					line[0] = 0;
+					maybe_break_window();
 
 					UChar* s = &cleaned[STR_CMD_SETVAR.size()];
 					UChar* c = u_strchr(s, ',');
@@ -665,6 +688,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					is_cmd = true;
 					cleaned[packoff - 1] = 0;
 					line[0] = 0;
+					maybe_break_window();
 
 					UChar* s = &cleaned[STR_CMD_REMVAR.size()];
 					UChar* c = u_strchr(s, ',');
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 6afa26a..81ddcbb 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -292,6 +292,17 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		}
 	};
 
+	// When converting, windows mean nothing but variables must stay where they are, so begin a new window for them
+	auto maybe_break_window = [&]() {
+		if (!is_conv || !cSWindow) {
+			return;
+		}
+		for (auto iter : cSWindow->cohorts.back()->readings) {
+			addTagToReading(*iter, endtag);
+		}
+		cSWindow = nullptr;
+	};
+
 	// Print any remaining 'global' variables that were set/rem'd after the last window was finalized
 	auto print_variables = [&]() {
 		for (auto var : variables_output) {
@@ -430,6 +441,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 					goto CGCMD_EXIT_JSONL;
 				}
 				else if (u_strncmp(cmd_ustr.data(), STR_CMD_SETVAR.data(), SI32(STR_CMD_SETVAR.size())) == 0) {
+					maybe_break_window();
 					auto cmd_payload = cmd_ustr.substr(STR_CMD_SETVAR.size(), cmd_ustr.size() - STR_CMD_SETVAR.size() -1); // Remove <STREAMCMD:SETVAR: and >
 					for_each_variable(cmd_payload, [&](const UString& item) {
 						auto equals_pos = item.find(u'=');
@@ -447,6 +459,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 					});
 				}
 				else if (u_strncmp(cmd_ustr.data(), STR_CMD_REMVAR.data(), SI32(STR_CMD_REMVAR.size())) == 0) {
+					maybe_break_window();
 					auto cmd_payload = cmd_ustr.substr(STR_CMD_REMVAR.size(), cmd_ustr.size() - STR_CMD_REMVAR.size() -1); // Remove <STREAMCMD:REMVAR: and >
 					for_each_variable(cmd_payload, [&](const UString& item) {
 						auto key_tag = addTag(item);
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index c4523ad..f500142 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -317,6 +317,7 @@ int main(int argc, char* argv[]) try {
 	}
 	else {
 		ApertiumApplicator* apertiumApplicator = new ApertiumApplicator(std::cerr);
+		apertiumApplicator->fmt_output = CG3SF_APERTIUM;
 		apertiumApplicator->wordform_case = wordform_case;
 		apertiumApplicator->print_word_forms = print_word_forms;
 		apertiumApplicator->print_only_first = only_first;
-- 
2.43.0


From 0272ed1b4f304b5bb00fe0e937ccd3a9e643b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 48/77] fix: commands before a window made by the soft limit
 were given to a later one

---
 src/GrammarApplicator_runGrammar.cpp | 73 +++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 18 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 7a23d0c..533aee0 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -145,6 +145,26 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 
 	ux_stripBOM(input);
 
+	// Commands that no window has adopted yet, and how many cohorts were before each
+	struct variable_command {
+		uint32_t cohort, var, value;
+		bool set;
+	};
+	std::vector<variable_command> variable_commands;
+
+	auto change_variable = [&](bool set, uint32_t var, uint32_t value = 0) {
+		if (set) {
+			variables_set[var] = value;
+			variables_rem.erase(var);
+		}
+		else {
+			variables_set.erase(var);
+			variables_rem.insert(var);
+		}
+		variables_output.insert(var);
+		variable_commands.push_back({ gWindow->cohort_counter, var, value, set });
+	};
+
 	auto adopt_variables = [&]() {
 		cSWindow->variables_set.insert(variables_set.begin(), variables_set.end());
 		variables_set.clear();
@@ -152,6 +172,27 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 		variables_rem.clear();
 		cSWindow->variables_output.insert(variables_output.begin(), variables_output.end());
 		variables_output.clear();
+		variable_commands.clear();
+	};
+
+	// Adopt only what was before the given cohort
+	auto adopt_variables_until = [&](uint32_t cohort) {
+		variables_set.clear();
+		variables_rem.clear();
+		variables_output.clear();
+		auto commands = std::move(variable_commands);
+		for (auto& cmd : commands) {
+			if (cmd.cohort <= cohort) {
+				change_variable(cmd.set, cmd.var, cmd.value);
+			}
+		}
+		adopt_variables();
+		for (auto& cmd : commands) {
+			if (cmd.cohort > cohort) {
+				change_variable(cmd.set, cmd.var, cmd.value);
+				variable_commands.back().cohort = cmd.cohort;
+			}
+		}
 	};
 
 	// When converting, windows mean nothing but variables must stay where they are, so begin a new window for them
@@ -199,6 +240,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 		variables_set.clear();
 		variables_rem.clear();
 		variables_output.clear();
+		variable_commands.clear();
 	};
 
 	auto binary_maybe_window = [&]() {
@@ -255,6 +297,12 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						if (cCohort) {
 							cCohort->parent = cSWindow;
 						}
+						if (cSWindow->all_cohorts.size() > 1) {
+							adopt_variables_until(cSWindow->all_cohorts[1]->global_number);
+						}
+						else if (cCohort) {
+							adopt_variables_until(cCohort->global_number);
+						}
 						if (verbosity_level > 0) {
 							u_fprintf(ux_stderr, "Warning: Soft limit of %u cohorts reached at line %u but found suitable soft delimiter in buffer.\n", soft_limit, numLines);
 							u_fflush(ux_stderr);
@@ -488,6 +536,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 				variables_rem.clear();
 				cSWindow->variables_output = variables_output;
 				variables_output.clear();
+				variable_commands.clear();
 
 				lSWindow = cSWindow;
 				++numWindows;
@@ -620,9 +669,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					UChar* d = u_strchr(s, '=');
 					if (c == 0 && d == 0) {
 						Tag* tag = addTag(s);
-						variables_set[tag->hash] = grammar->tag_any;
-						variables_rem.erase(tag->hash);
-						variables_output.insert(tag->hash);
+						change_variable(true, tag->hash, grammar->tag_any);
 					}
 					else {
 						uint32_t a = 0, b = 0;
@@ -651,9 +698,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 									d = nullptr;
 									s = nullptr;
 								}
-								variables_set[a] = b;
-								variables_rem.erase(a);
-								variables_output.insert(a);
+								change_variable(true, a, b);
 							}
 							else if (c && (c < d || d == nullptr)) {
 								c[0] = 0;
@@ -665,18 +710,14 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 									a = addTag(s)->hash;
 								}
 								s = c + 1;
-								variables_set[a] = grammar->tag_any;
-								variables_rem.erase(a);
-								variables_output.insert(a);
+								change_variable(true, a, grammar->tag_any);
 							}
 							if (s) {
 								c = u_strchr(s, ',');
 								d = u_strchr(s, '=');
 								if (c == nullptr && d == nullptr) {
 									a = addTag(s)->hash;
-									variables_set[a] = grammar->tag_any;
-									variables_rem.erase(a);
-									variables_output.insert(a);
+									change_variable(true, a, grammar->tag_any);
 									s = nullptr;
 								}
 							}
@@ -697,18 +738,14 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						c[0] = 0;
 						if (s[0]) {
 							a = addTag(s)->hash;
-							variables_set.erase(a);
-							variables_rem.insert(a);
-							variables_output.insert(a);
+							change_variable(false, a);
 						}
 						s = c + 1;
 						c = u_strchr(s, ',');
 					}
 					if (s && s[0]) {
 						a = addTag(s)->hash;
-						variables_set.erase(a);
-						variables_rem.insert(a);
-						variables_output.insert(a);
+						change_variable(false, a);
 					}
 				}
 
-- 
2.43.0


From b4f3e8a853ec6543585ec9b129f538d0d83ca276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 49/77] fix: --dep-delimit went on counting across a flush,
 which put an empty window after it

---
 src/GrammarApplicator_runGrammar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 533aee0..e788a2c 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -626,6 +626,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					}
 					line[0] = 0;
 					variables.clear();
+					dep_highest_seen = 0;
 					u_fflush(output);
 					u_fflush(ux_stderr);
 					fflush(stdout);
-- 
2.43.0


From 00ef201830341ad8dc637aceda5da60d218db9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 50/77] fix: removing a value from a hash set or map with no
 empty slot left never ended

---
 src/flat_unordered_map.hpp | 5 ++---
 src/flat_unordered_set.hpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/flat_unordered_map.hpp b/src/flat_unordered_map.hpp
index f4ef313..00a3638 100644
--- a/src/flat_unordered_map.hpp
+++ b/src/flat_unordered_map.hpp
@@ -173,7 +173,7 @@ public:
 		}
 		size_t max = capacity() - 1;
 		size_t spot = hash_value(t) & max;
-		while (elements[spot].first != res_empty && elements[spot].first != t) {
+		for (size_t i = 0; i < capacity() * 4 && elements[spot].first != res_empty && elements[spot].first != t; ++i) {
 			spot = hash_value_sz(spot) & max;
 		}
 		if (elements[spot].first == t) {
@@ -290,8 +290,7 @@ public:
 
 	void reserve(size_type n) {
 		if (size_ == 0) {
-			elements.resize(n, std::make_pair(res_empty, V()));
-			deleted = 0;
+			clear(n);
 			return;
 		}
 
diff --git a/src/flat_unordered_set.hpp b/src/flat_unordered_set.hpp
index 8f68cb9..8d3457c 100644
--- a/src/flat_unordered_set.hpp
+++ b/src/flat_unordered_set.hpp
@@ -169,7 +169,7 @@ public:
 		}
 		size_t max = capacity() - 1;
 		size_t spot = hash_value(t) & max;
-		while (elements[spot] != res_empty && elements[spot] != t) {
+		for (size_t i = 0; i < capacity() * 4 && elements[spot] != res_empty && elements[spot] != t; ++i) {
 			spot = hash_value_sz(spot) & max;
 		}
 		if (elements[spot] == t) {
@@ -259,8 +259,7 @@ public:
 
 	void reserve(size_type n) {
 		if (size_ == 0) {
-			elements.resize(n, res_empty);
-			deleted = 0;
+			clear(n);
 			return;
 		}
 
-- 
2.43.0


From 750fe32ba7cc918b9967a51d6176be031d949dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 51/77] fix: --dep-delimit put an empty window after a break
 made by another limit

---
 src/GrammarApplicator_runGrammar.cpp | 33 +++++++++++++++-------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index e788a2c..460b04b 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -523,24 +523,27 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 			if (!is_deleted && dep_delimit && dep_highest_seen && (cCohort->dep_self <= dep_highest_seen || cCohort->dep_self - dep_highest_seen > dep_delimit)) {
 				reflowDependencyWindow(cCohort->global_number);
 
-				for (auto iter : cSWindow->cohorts.back()->readings) {
-					addTagToReading(*iter, endtag);
-				}
+				// If the window is empty then another limit has already put a break here
+				if (cSWindow->cohorts.size() > 1) {
+					for (auto iter : cSWindow->cohorts.back()->readings) {
+						addTagToReading(*iter, endtag);
+					}
 
-				cSWindow = gWindow->allocAppendSingleWindow();
-				initEmptySingleWindow(cSWindow);
+					cSWindow = gWindow->allocAppendSingleWindow();
+					initEmptySingleWindow(cSWindow);
 
-				cSWindow->variables_set = variables_set;
-				variables_set.clear();
-				cSWindow->variables_rem = variables_rem;
-				variables_rem.clear();
-				cSWindow->variables_output = variables_output;
-				variables_output.clear();
-				variable_commands.clear();
+					cSWindow->variables_set = variables_set;
+					variables_set.clear();
+					cSWindow->variables_rem = variables_rem;
+					variables_rem.clear();
+					cSWindow->variables_output = variables_output;
+					variables_output.clear();
+					variable_commands.clear();
 
-				lSWindow = cSWindow;
-				++numWindows;
-				did_soft_lookback = false;
+					lSWindow = cSWindow;
+					++numWindows;
+					did_soft_lookback = false;
+				}
 				dep_highest_seen = 0;
 
 				if (grammar->has_bag_of_tags) {
-- 
2.43.0


From f340b033437f0f0921f1f99abe4554c3da11e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 52/77] fix: a grammar that makes the parser throw let the
 exception escape through the C API, and leaked

---
 src/libcg3.cpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index c7b9ce4..30efed5 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -109,6 +109,24 @@ cg3_status cg3_cleanup(void) {
 	return CG3_SUCCESS;
 }
 
+// Exceptions must not escape through the C API, so a grammar that makes the parser throw is one that could not be parsed
+template<typename... Args>
+static bool parse_and_index(IGrammarParser& parser, Grammar& grammar, Args... args) {
+	try {
+		if (!parser.parse_grammar(args...)) {
+			grammar.reindex();
+			return true;
+		}
+	}
+	catch (const std::exception& e) {
+		u_fprintf(ux_stderr, "CG3 Error: %s\n", e.what());
+	}
+	catch (...) {
+	}
+	u_fprintf(ux_stderr, "CG3 Error: Grammar could not be parsed!\n");
+	return false;
+}
+
 cg3_grammar* cg3_grammar_load(const char* filename) {
 	std::ifstream input(filename, std::ios::binary);
 	if (!input) {
@@ -121,7 +139,7 @@ cg3_grammar* cg3_grammar_load(const char* filename) {
 	}
 	input.close();
 
-	auto grammar = new Grammar;
+	auto grammar = std::make_unique<Grammar>();
 	grammar->ux_stderr = ux_stderr.get();
 	grammar->ux_stdout = ux_stdout.get();
 
@@ -133,14 +151,11 @@ cg3_grammar* cg3_grammar_load(const char* filename) {
 	else {
 		parser.reset(new TextualParser(*grammar, *ux_stderr));
 	}
-	if (parser->parse_grammar(filename)) {
-		u_fprintf(ux_stderr, "CG3 Error: Grammar could not be parsed!\n");
+	if (!parse_and_index(*parser, *grammar, filename)) {
 		return 0;
 	}
 
-	grammar->reindex();
-
-	return grammar;
+	return grammar.release();
 }
 
 cg3_grammar* cg3_grammar_load_buffer(const char* buffer, size_t length) {
@@ -152,7 +167,7 @@ cg3_grammar* cg3_grammar_load_buffer(const char* buffer, size_t length) {
 		return 0;
 	}
 
-	auto grammar = new Grammar;
+	auto grammar = std::make_unique<Grammar>();
 	grammar->ux_stderr = ux_stderr.get();
 	grammar->ux_stdout = ux_stdout.get();
 
@@ -164,14 +179,11 @@ cg3_grammar* cg3_grammar_load_buffer(const char* buffer, size_t length) {
 	else {
 		parser.reset(new TextualParser(*grammar, *ux_stderr));
 	}
-	if (parser->parse_grammar(buffer, length)) {
-		u_fprintf(ux_stderr, "CG3 Error: Grammar could not be parsed!\n");
+	if (!parse_and_index(*parser, *grammar, buffer, length)) {
 		return 0;
 	}
 
-	grammar->reindex();
-
-	return grammar;
+	return grammar.release();
 }
 
 void cg3_grammar_free(cg3_grammar* grammar_) {
-- 
2.43.0


From e35715f422e0f0357f7f89f2f81b2e4b23330c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:49 +0000
Subject: [PATCH 53/77] fix: a copied sentence had a second start marker, and
 all its cohorts had the same number

---
 src/libcg3.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 30efed5..1da8a52 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -392,6 +392,7 @@ inline Reading* _reading_copy(Cohort* nc, Reading* oldr, bool is_sub = false) {
 
 inline Cohort* _cohort_copy(SingleWindow* ns, Cohort* oc) {
 	Cohort* nc = alloc_cohort(ns);
+	nc->global_number = ns->parent->cohort_counter++;
 	nc->wordform = _tag_copy(ns->parent->parent, oc->wordform);
 	for (auto r : oc->readings) {
 		auto nr = _reading_copy(nc, r);
@@ -411,8 +412,9 @@ cg3_sentence* cg3_sentence_copy(cg3_sentence* sentence_, cg3_applicator* applica
 	applicator->initEmptySingleWindow(current);
 	current->has_enclosures = sentence->has_enclosures;
 	current->text = sentence->text;
-	for (auto c : sentence->cohorts) {
-		Cohort* nc = _cohort_copy(current, c);
+	// The new sentence already has its own start marker
+	for (size_t i = 1; i < sentence->cohorts.size(); ++i) {
+		Cohort* nc = _cohort_copy(current, sentence->cohorts[i]);
 		current->appendCohort(nc);
 	}
 	return current;
-- 
2.43.0


From 7315b286367f18c9cc2f973ccbf76f2b92012c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 54/77] fix: the readings of a copied sentence had the word
 form twice

---
 src/libcg3.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 1da8a52..9be3bd1 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -373,6 +373,9 @@ inline Reading* _reading_copy(Cohort* nc, Reading* oldr, bool is_sub = false) {
 	ga->addTagToReading(*nr, nc->wordform);
 	TagList mappings;
 	for (auto tag : oldr->tags_list) {
+		if (tag == oldr->parent->wordform->hash) {
+			continue;
+		}
 		Tag* nt = _tag_copy(oldr->parent->parent->parent->parent, nc->parent->parent->parent, tag);
 		if (nt->type & T_MAPPING || nt->tag[0] == ga->grammar->mapping_prefix) {
 			mappings.push_back(nt);
-- 
2.43.0


From 552d4d5af1e7d9f9a00162ebf52f4750de6bb726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 55/77] fix: threads that use the library at the same time
 overwrote each other's scratch buffers

---
 src/Strings.cpp | 4 ----
 src/Strings.hpp | 4 ++--
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/Strings.cpp b/src/Strings.cpp
index a20e3fb..b6f971d 100644
--- a/src/Strings.cpp
+++ b/src/Strings.cpp
@@ -19,7 +19,3 @@
 
 #include "Strings.hpp"
 
-namespace CG3 {
-std::vector<UString> gbuffers(NUM_GBUFFERS, UString(CG3_BUFFER_SIZE, 0));
-std::vector<std::string> cbuffers(NUM_CBUFFERS, std::string(CG3_BUFFER_SIZE, 0));
-}
diff --git a/src/Strings.hpp b/src/Strings.hpp
index 19d8469..466b4ce 100644
--- a/src/Strings.hpp
+++ b/src/Strings.hpp
@@ -378,9 +378,9 @@ constexpr UStringView
 
 constexpr size_t CG3_BUFFER_SIZE = 8192;
 constexpr size_t NUM_GBUFFERS = 1;
-CG3_IMPORTS extern std::vector<UString> gbuffers;
+inline thread_local std::vector<UString> gbuffers(NUM_GBUFFERS, UString(CG3_BUFFER_SIZE, 0));
 constexpr size_t NUM_CBUFFERS = 1;
-CG3_IMPORTS extern std::vector<std::string> cbuffers;
+inline thread_local std::vector<std::string> cbuffers(NUM_CBUFFERS, std::string(CG3_BUFFER_SIZE, 0));
 
 constexpr UChar not_sign = u'\u00AC';
 }
-- 
2.43.0


From a605568e6cbe56e1d23c5eb9b27d8fd1a9b62b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:38 +0000
Subject: [PATCH 56/77] fix: a failed start of an external program closed
 descriptors twice

---
 include/posix/popen_plus.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/posix/popen_plus.cpp b/include/posix/popen_plus.cpp
index 606d3bb..1276203 100644
--- a/include/posix/popen_plus.cpp
+++ b/include/posix/popen_plus.cpp
@@ -95,17 +95,21 @@ clean_mutex_out:
 
 clean_write_fp_out:
     fclose(process->write_fp);
+    inpipe[WRITE] = -1;
 
 clean_read_fp_out:
     fclose(process->read_fp);
+    outpipe[READ] = -1;
 
 clean_outpipe_out:
-    close(outpipe[READ]);
+    if (outpipe[READ] != -1)
+        close(outpipe[READ]);
     close(outpipe[WRITE]);
 
 clean_inpipe_out:
     close(inpipe[READ]);
-    close(inpipe[WRITE]);
+    if (inpipe[WRITE] != -1)
+        close(inpipe[WRITE]);
 
 clean_process_out:
     free(process);
-- 
2.43.0


From e1532f7529630ecdad405cb4363ce67dabc2215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:38 +0000
Subject: [PATCH 57/77] fix: a malformed reply from an external program was
 taken for a good one, read outside the window, or waited for forever

---
 src/GrammarApplicator.cpp          | 49 +++++++++++++++++++++++-------
 src/GrammarApplicator.hpp          |  4 +--
 src/GrammarApplicator_runRules.cpp | 10 ++++--
 src/inlines.hpp                    |  3 ++
 4 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index f86b984..b343b7b 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -712,17 +712,25 @@ void GrammarApplicator::pipeOutSingleWindow(const SingleWindow& window, Process&
 	output.flush();
 }
 
-void GrammarApplicator::pipeInReading(Reading* reading, Process& input, bool force) {
+// The rest of a packet must be exactly as long as its length says
+static void checkPacketEnd(std::istream& input, std::streamoff end) {
+	if (static_cast<std::streamoff>(input.tellg()) != end) {
+		throw std::runtime_error("External returned a packet whose length does not fit its contents");
+	}
+}
+
+static std::streamoff readPacketEnd(std::istream& input, uint32_t& length) {
+	readRaw(input, length);
+	return static_cast<std::streamoff>(input.tellg()) + length;
+}
+
+void GrammarApplicator::pipeInReading(Reading* reading, std::istream& ss, bool force) {
 	uint32_t cs = 0;
-	readRaw(input, cs);
+	auto end = readPacketEnd(ss, cs);
 	if (debug_level > 1) {
 		u_fprintf(ux_stderr, "DEBUG: reading packet length %u\n", cs);
 	}
 
-	std::string buf(cs, 0);
-	input.read(&buf[0], cs);
-	std::istringstream ss(buf);
-
 	uint32_t flags = 0;
 	readRaw(ss, flags);
 	if (debug_level > 1) {
@@ -731,6 +739,7 @@ void GrammarApplicator::pipeInReading(Reading* reading, Process& input, bool for
 
 	// Not marked modified, so don't bother with the heavy lifting...
 	if (!force && !(flags & (1 << 0))) {
+		ss.seekg(end);
 		return;
 	}
 
@@ -739,7 +748,7 @@ void GrammarApplicator::pipeInReading(Reading* reading, Process& input, bool for
 
 	if (flags & (1 << 3)) {
 		UString str = readUTF8_Raw(ss);
-		if (str != grammar->single_tags.find(reading->baseform)->second->tag) {
+		if (!reading->baseform || str != grammar->single_tags.find(reading->baseform)->second->tag) {
 			Tag* tag = addTag(str);
 			reading->baseform = tag->hash;
 		}
@@ -770,13 +779,14 @@ void GrammarApplicator::pipeInReading(Reading* reading, Process& input, bool for
 			u_fprintf(ux_stderr, "DEBUG: tag %S\n", tag->tag.data());
 		}
 	}
+	checkPacketEnd(ss, end);
 
 	reflowReading(*reading);
 }
 
-void GrammarApplicator::pipeInCohort(Cohort* cohort, Process& input) {
+void GrammarApplicator::pipeInCohort(Cohort* cohort, std::istream& input) {
 	uint32_t cs = 0;
-	readRaw(input, cs);
+	auto end = readPacketEnd(input, cs);
 	if (debug_level > 1) {
 		u_fprintf(ux_stderr, "DEBUG: cohort packet length %u\n", cs);
 	}
@@ -818,6 +828,9 @@ void GrammarApplicator::pipeInCohort(Cohort* cohort, Process& input) {
 	if (debug_level > 1) {
 		u_fprintf(ux_stderr, "DEBUG: num readings %u\n", cs);
 	}
+	if (cs != cohort->readings.size()) {
+		throw std::runtime_error("External returned another number of readings than it was sent");
+	}
 	for (size_t i = 0; i < cs; ++i) {
 		pipeInReading(cohort->readings[i], input, force_readings);
 	}
@@ -828,11 +841,12 @@ void GrammarApplicator::pipeInCohort(Cohort* cohort, Process& input) {
 			u_fprintf(ux_stderr, "DEBUG: cohort text %S\n", cohort->text.data());
 		}
 	}
+	checkPacketEnd(input, end);
 }
 
-void GrammarApplicator::pipeInSingleWindow(SingleWindow& window, Process& input) {
+void GrammarApplicator::pipeInSingleWindow(SingleWindow& window, Process& process) {
 	uint32_t cs = 0;
-	readRaw(input, cs);
+	readRaw(process, cs);
 	if (debug_level > 1) {
 		u_fprintf(ux_stderr, "DEBUG: window packet length %u\n", cs);
 	}
@@ -841,6 +855,15 @@ void GrammarApplicator::pipeInSingleWindow(SingleWindow& window, Process& input)
 		return;
 	}
 
+	std::string buf;
+	while (buf.size() < cs) {
+		auto n = std::min<size_t>(cs - buf.size(), 1 << 16);
+		buf.resize(buf.size() + n);
+		process.read(&buf[buf.size() - n], n);
+	}
+	std::istringstream input(buf);
+	input.exceptions(std::ios::failbit | std::ios::badbit); // The packet must have all that it promises
+
 	readRaw(input, cs);
 	if (cs != window.number) {
 		u_fprintf(ux_stderr, "Error: External returned data for window %u but we expected window %u!\n", cs, window.number);
@@ -851,9 +874,13 @@ void GrammarApplicator::pipeInSingleWindow(SingleWindow& window, Process& input)
 	}
 
 	readRaw(input, cs);
+	if (cs != window.cohorts.size() - 1) {
+		throw std::runtime_error("External returned another number of cohorts than it was sent");
+	}
 	for (size_t i = 0; i < cs; ++i) {
 		pipeInCohort(window.cohorts[i + 1], input);
 	}
+	checkPacketEnd(input, static_cast<std::streamoff>(buf.size()));
 }
 
 void GrammarApplicator::error(const char* str, const UChar* p) {
diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index b2a900c..d48d584 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -209,8 +209,8 @@ protected:
 	void pipeOutCohort(const Cohort* cohort, std::ostream& output);
 	void pipeOutSingleWindow(const SingleWindow& window, Process& output);
 
-	void pipeInReading(Reading* reading, Process& input, bool force = false);
-	void pipeInCohort(Cohort* cohort, Process& input);
+	void pipeInReading(Reading* reading, std::istream& input, bool force = false);
+	void pipeInCohort(Cohort* cohort, std::istream& input);
 	void pipeInSingleWindow(SingleWindow& window, Process& input);
 
 	UString span_pattern_latin;
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 8347567..c476a3d 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1496,8 +1496,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					ei = externals.find(rule->varname);
 				}
 
-				pipeOutSingleWindow(current, ei->second);
-				pipeInSingleWindow(current, ei->second);
+				try {
+					pipeOutSingleWindow(current, ei->second);
+					pipeInSingleWindow(current, ei->second);
+				}
+				catch (std::exception& e) {
+					u_fprintf(ux_stderr, "Error: External on line %u resulted in error: %s\n", rule->line, e.what());
+					CG3Quit(1);
+				}
 
 				indexSingleWindow(current);
 				readings_changed = true;
diff --git a/src/inlines.hpp b/src/inlines.hpp
index ce631cf..e80de98 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -631,6 +631,9 @@ inline UString readUTF8_Raw(S& input) {
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
 	u_strFromUTF8(&rv[0], len, &olen, buffer.data(), len, &status);
+	if (U_FAILURE(status)) {
+		throw std::runtime_error("Text is not valid UTF-8");
+	}
 
 	rv.resize(olen);
 
-- 
2.43.0


From 6797d995706294a8008be4237c423bc0e73e5f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 58/77] fix: writing an example for the profile or
 --debug-rules disturbed the run it was taken from

---
 src/FormatConverter.cpp   |  3 +++
 src/GrammarApplicator.cpp | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/FormatConverter.cpp b/src/FormatConverter.cpp
index bdf15e8..c8979b2 100644
--- a/src/FormatConverter.cpp
+++ b/src/FormatConverter.cpp
@@ -205,6 +205,9 @@ void FormatConverter::printCohort(Cohort* cohort, std::ostream& output, bool pro
 }
 
 void FormatConverter::printSingleWindow(SingleWindow* window, std::ostream& output, bool profiling) {
+	// Examples are for people to read, and the other formats' printers would change what is still being processed
+	auto cg = CG3SF_CG;
+	swapper<cg3_sformat> _fmt(profiling, fmt_output, cg);
 	switch (fmt_output) {
 	case CG3SF_CG: {
 		GrammarApplicator::printSingleWindow(window, output, profiling);
diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index b343b7b..7cd2766 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -531,6 +531,16 @@ void GrammarApplicator::printCohort(Cohort* cohort, std::ostream& output, bool p
 		}
 	}
 
+	if (profiling) {
+		// A rule may be going through these readings right now, so their order must stay
+		auto readings = cohort->readings;
+		std::sort(readings.begin(), readings.end(), Reading::cmp_number);
+		for (auto rter1 : readings) {
+			printReading(rter1, output);
+		}
+		goto removed;
+	}
+
 	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
 	for (auto rter1 : cohort->readings) {
 		printReading(rter1, output);
-- 
2.43.0


From 2d7cdfca78e7bca799bceaaa3004141421aa3bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 59/77] fix: contexts that share an end offset or are also used
 linked were lost from the profile

---
 src/AST.hpp           | 10 ++++++++++
 src/Profiler.cpp      | 13 +++++--------
 src/Profiler.hpp      | 12 +++++++++---
 src/TextualParser.cpp | 12 ++++++++----
 src/TextualParser.hpp |  2 +-
 5 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/AST.hpp b/src/AST.hpp
index b354b6e..39ed816 100644
--- a/src/AST.hpp
+++ b/src/AST.hpp
@@ -138,6 +138,16 @@ const UChar* xml_encode(const UChar* b, const UChar* e) {
 	return buf.data();
 }
 
+// Lets nodes that refer to an ID refer to another instead
+void renumber_ast(ASTNode& node, ASTType type, uint32_t from, uint32_t to) {
+	if (node.type == type && node.u == from) {
+		node.u = to;
+	}
+	for (auto& it : node.cs) {
+		renumber_ast(it, type, from, to);
+	}
+}
+
 void print_ast(std::ostream& out, const UChar* b, size_t n, const ASTNode& node) {
 	std::string indent(n, ' ');
 	u_fprintf(out, "%s<%s l=\"%u\" b=\"%u\" e=\"%u\"", indent.data(), ASTType_str[node.type], node.line, UI32(node.b - b), UI32(node.e - b));
diff --git a/src/Profiler.cpp b/src/Profiler.cpp
index 1ee4a51..28fbe19 100644
--- a/src/Profiler.cpp
+++ b/src/Profiler.cpp
@@ -117,6 +117,11 @@ void Profiler::write(const char* fname) {
 		throw std::runtime_error(concat("sqlite3 error preparing insert into entries table: ", sqlite3_errmsg(db)));
 	}
 	for (auto& it : entries) {
+		// Skip contexts that only exist as linked part of a larger context
+		// Such contexts are currently irrelevant and just get in the way
+		if (it.second.part) {
+			continue;
+		}
 		sqlite3_reset(s);
 		if (sqlite3_bind_int64(s, 1, it.first.type) != SQLITE_OK) {
 			throw std::runtime_error(concat("sqlite3 error trying to bind int64 for type: ", sqlite3_errmsg(db)));
@@ -169,14 +174,6 @@ void Profiler::write(const char* fname) {
 	}
 	sqlite3_finalize(s);
 
-	// Erase contexts that only exist as linked part of a larger context
-	// Such contexts are currently irrelevant and just get in the way
-	for (int i = 0; i < 10; ++i) {
-		if (sqlite3_exec(db, "DELETE FROM entries WHERE type = 1 AND id IN (SELECT id FROM entries as et INNER JOIN (SELECT max(b) as b, e FROM entries WHERE type = 1 GROUP BY e HAVING count(b) > 1) as jt ON (et.b = jt.b AND et.e = jt.e))") != SQLITE_OK) {
-			throw std::runtime_error(concat("sqlite3 error while deleting overlapping contexts: ", sqlite3_errmsg(db)));
-		}
-	}
-
 	if (sqlite3_exec(db, "COMMIT") != SQLITE_OK) {
 		throw std::runtime_error(concat("sqlite3 error while committing: ", sqlite3_errmsg(db)));
 	}
diff --git a/src/Profiler.hpp b/src/Profiler.hpp
index 772ca1b..013bb73 100644
--- a/src/Profiler.hpp
+++ b/src/Profiler.hpp
@@ -59,6 +59,8 @@ struct Profiler {
 		size_t num_match = 0;
 		size_t num_fail = 0;
 		size_t example_window = 0;
+		// Whether this context has only been seen as the linked part of a larger context
+		bool part = false;
 	};
 	std::map<Key, Entry> entries;
 	std::map<std::pair<uint32_t, uint32_t>, size_t> rule_contexts;
@@ -85,10 +87,14 @@ struct Profiler {
 		entries.emplace(k, Entry{ET_RULE, g, b, e});
 	}
 
-	void addContext(uint32_t c, uint32_t g, size_t b, size_t e) {
+	void addContext(uint32_t c, uint32_t g, size_t b, size_t e, bool part = false) {
 		Key k{ ET_CONTEXT, c };
-		if (entries.count(k) == 0) {
-			entries.emplace(k, Entry{ET_CONTEXT, g, b, e});
+		auto it = entries.find(k);
+		if (it == entries.end()) {
+			entries.emplace(k, Entry{ET_CONTEXT, g, b, e, 0, 0, 0, part});
+		}
+		else if (it->second.part && !part) {
+			it->second = Entry{ET_CONTEXT, g, b, e};
 		}
 	}
 
diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 0107219..afa28e6 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -841,7 +841,7 @@ void TextualParser::parseContextualTestPosition(UChar*& p, ContextualTest& t) {
 	}
 }
 
-ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bool in_tmpl) {
+ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bool in_tmpl, bool is_linked) {
 	AST_OPEN(Context);
 	ContextualTest* t = result->allocateContextualTest();
 	ContextualTest* ot = t;
@@ -1024,7 +1024,7 @@ ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bo
 	result->lines += SKIPWS(p);
 
 	if (linked) {
-		t->linked = parseContextualTestList(p, rule, in_tmpl);
+		t->linked = parseContextualTestList(p, rule, in_tmpl, true);
 		if (t->pos & POS_NONE) {
 			error("%s: Error: It does not make sense to LINK from a NONE test; perhaps you meant NOT or NEGATE on line %u near `%S`?\n", p);
 		}
@@ -1049,7 +1049,7 @@ ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bo
 
 	t = result->addContextualTest(ot);
 	if (profiler) {
-		profiler->addContext(t->hash, cur_grammar_n, cur_ast->b - cur_grammar, p - cur_grammar);
+		profiler->addContext(t->hash, cur_grammar_n, cur_ast->b - cur_grammar, p - cur_grammar, is_linked);
 	}
 	if (t->tmpl) {
 		deferred_tmpls[t] = tmpl_data;
@@ -3158,7 +3158,11 @@ int TextualParser::parse_grammar(UString& data) {
 				Profiler::Key k{ET_CONTEXT, tmp->hash};
 				auto pc = profiler->entries.find(k);
 				if (pc != profiler->entries.end()) {
-					profiler->addContext(orc->hash, cur_grammar_n, pc->second.b, pc->second.e);
+					// The branches replace the context, so its place in the grammar is now theirs
+					auto old = pc->second;
+					profiler->entries.erase(pc);
+					profiler->addContext(orc->hash, old.grammar, old.b, old.e, old.part);
+					renumber_ast(ast, AST_Context, k.id, orc->hash);
 				}
 			}
 
diff --git a/src/TextualParser.hpp b/src/TextualParser.hpp
index 4a2536d..9285c4f 100644
--- a/src/TextualParser.hpp
+++ b/src/TextualParser.hpp
@@ -99,7 +99,7 @@ private:
 	Set* parseSetInline(UChar*& p, Set* s = nullptr);
 	Set* parseSetInlineWrapper(UChar*& p);
 	void parseContextualTestPosition(UChar*& p, ContextualTest& t);
-	ContextualTest* parseContextualTestList(UChar*& p, Rule* rule = nullptr, bool in_tmpl = false);
+	ContextualTest* parseContextualTestList(UChar*& p, Rule* rule = nullptr, bool in_tmpl = false, bool is_linked = false);
 	void parseContextualTests(UChar*& p, Rule* rule);
 	void parseContextualDependencyTests(UChar*& p, Rule* rule);
 	flags_t parseRuleFlags(UChar*& p);
-- 
2.43.0


From 11f3edec4e07562c29d573fc448791dd2774e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:32 +0000
Subject: [PATCH 60/77] fix: errors while reading a profile were taken for its
 end

---
 src/Profiler.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/Profiler.cpp b/src/Profiler.cpp
index 28fbe19..1f60b8e 100644
--- a/src/Profiler.cpp
+++ b/src/Profiler.cpp
@@ -187,6 +187,7 @@ void Profiler::read(const char* fname) {
 	sqlite3* db = nullptr;
 	sqlite3_stmt* s = nullptr;
 	std::string tmp;
+	int rv = SQLITE_OK;
 	if (sqlite3_open_v2(fname, &db, SQLITE_OPEN_READONLY, nullptr) != SQLITE_OK) {
 		throw std::runtime_error(concat("sqlite3_open_v2() error: ", sqlite3_errmsg(db)));
 	}
@@ -195,29 +196,39 @@ void Profiler::read(const char* fname) {
 	if (sqlite3_prepare_v2(db, "SELECT * FROM strings", -1, &s, nullptr) != SQLITE_OK) {
 		throw std::runtime_error(concat("sqlite3 error preparing select from strings table: ", sqlite3_errmsg(db)));
 	}
-	while (sqlite3_step(s) == SQLITE_ROW) {
+	while ((rv = sqlite3_step(s)) == SQLITE_ROW) {
 		auto sz = UIZ(sqlite3_column_int64(s, 0));
-		tmp.assign(reinterpret_cast<const char*>(sqlite3_column_text(s, 1)));
+		auto txt = reinterpret_cast<const char*>(sqlite3_column_text(s, 1));
+		if (txt == nullptr) {
+			throw std::runtime_error(concat("sqlite3 error reading from strings table: ", sqlite3_errmsg(db)));
+		}
+		tmp.assign(txt, sqlite3_column_bytes(s, 1));
 		strings[std::move(tmp)] = sz;
 	}
+	if (rv != SQLITE_DONE) {
+		throw std::runtime_error(concat("sqlite3 error reading from strings table: ", sqlite3_errmsg(db)));
+	}
 	sqlite3_finalize(s);
 
 	// Grammars
 	if (sqlite3_prepare_v2(db, "SELECT * FROM grammars", -1, &s, nullptr) != SQLITE_OK) {
 		throw std::runtime_error(concat("sqlite3 error preparing select from grammars table: ", sqlite3_errmsg(db)));
 	}
-	while (sqlite3_step(s) == SQLITE_ROW) {
+	while ((rv = sqlite3_step(s)) == SQLITE_ROW) {
 		auto f = UIZ(sqlite3_column_int64(s, 0));
 		auto g = UIZ(sqlite3_column_int64(s, 1));
 		grammars[f] = g;
 	}
+	if (rv != SQLITE_DONE) {
+		throw std::runtime_error(concat("sqlite3 error reading from grammars table: ", sqlite3_errmsg(db)));
+	}
 	sqlite3_finalize(s);
 
 	// Entries
 	if (sqlite3_prepare_v2(db, "SELECT * FROM entries", -1, &s, nullptr) != SQLITE_OK) {
 		throw std::runtime_error(concat("sqlite3 error preparing select from entries table: ", sqlite3_errmsg(db)));
 	}
-	while (sqlite3_step(s) == SQLITE_ROW) {
+	while ((rv = sqlite3_step(s)) == SQLITE_ROW) {
 		auto type = UI8(sqlite3_column_int64(s, 0));
 		auto id = UI32(sqlite3_column_int64(s, 1));
 		Profiler::Key k{type, id};
@@ -230,17 +241,23 @@ void Profiler::read(const char* fname) {
 		e.num_fail = UIZ(sqlite3_column_int64(s, 6));
 		e.example_window = UIZ(sqlite3_column_int64(s, 7));
 	}
+	if (rv != SQLITE_DONE) {
+		throw std::runtime_error(concat("sqlite3 error reading from entries table: ", sqlite3_errmsg(db)));
+	}
 	sqlite3_finalize(s);
 
 	// Rule->Context hits
 	if (sqlite3_prepare_v2(db, "SELECT * FROM rule_contexts", -1, &s, nullptr) != SQLITE_OK) {
 		throw std::runtime_error(concat("sqlite3 error preparing select from rule_contexts table: ", sqlite3_errmsg(db)));
 	}
-	while (sqlite3_step(s) == SQLITE_ROW) {
+	while ((rv = sqlite3_step(s)) == SQLITE_ROW) {
 		auto r = UI32(sqlite3_column_int64(s, 0));
 		auto c = UI32(sqlite3_column_int64(s, 1));
 		rule_contexts[std::pair(r,c)] = UIZ(sqlite3_column_int64(s, 2));
 	}
+	if (rv != SQLITE_DONE) {
+		throw std::runtime_error(concat("sqlite3 error reading from rule_contexts table: ", sqlite3_errmsg(db)));
+	}
 	sqlite3_finalize(s);
 }
 
-- 
2.43.0


From d98e3e9dac0d5be00a5cdd7b64994d633ac9a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 61/77] fix: a failed or interrupted profile write left a
 partial profile that reads as a whole one

---
 src/Profiler.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/Profiler.cpp b/src/Profiler.cpp
index 1f60b8e..7174f51 100644
--- a/src/Profiler.cpp
+++ b/src/Profiler.cpp
@@ -35,7 +35,9 @@ void Profiler::read(const char* fname) {
 
 #else
 
+#include "filesystem.hpp"
 #include <sqlite3.h>
+namespace fs = ::std::filesystem;
 
 namespace CG3 {
 
@@ -48,11 +50,26 @@ void Profiler::write(const char* fname) {
 		throw std::runtime_error("sqlite3_initialize() errored");
 	}
 
-	remove(fname);
+	// Only a complete profile may show up under the real name
+	std::string tmp(fname);
+	tmp += ".tmp";
+	remove(tmp.c_str());
 
 	sqlite3* db = nullptr;
 	sqlite3_stmt* s = nullptr;
-	if (sqlite3_open_v2(fname, &db, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, nullptr) != SQLITE_OK) {
+	struct cleanup {
+		sqlite3*& db;
+		sqlite3_stmt*& s;
+		std::string& tmp;
+		~cleanup() {
+			if (db) {
+				sqlite3_finalize(s);
+				sqlite3_close(db);
+				remove(tmp.c_str());
+			}
+		}
+	} _cleanup{ db, s, tmp };
+	if (sqlite3_open_v2(tmp.c_str(), &db, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, nullptr) != SQLITE_OK) {
 		throw std::runtime_error(concat("sqlite3_open_v2() error: ", sqlite3_errmsg(db)));
 	}
 
@@ -93,6 +110,7 @@ void Profiler::write(const char* fname) {
 		}
 	}
 	sqlite3_finalize(s);
+	s = nullptr;
 
 	// Grammars
 	if (sqlite3_prepare_v2(db, "INSERT INTO grammars (fname, grammar) VALUES (:fname, :grammar)", -1, &s, nullptr) != SQLITE_OK) {
@@ -111,6 +129,7 @@ void Profiler::write(const char* fname) {
 		}
 	}
 	sqlite3_finalize(s);
+	s = nullptr;
 
 	// Entries
 	if (sqlite3_prepare_v2(db, "INSERT INTO entries (type, id, grammar, b, e, num_match, num_fail, example_window) VALUES(:type, :id, :grammar, :b, :e, :num_match, :num_fail, :example_window)", -1, &s, nullptr) != SQLITE_OK) {
@@ -152,6 +171,7 @@ void Profiler::write(const char* fname) {
 		}
 	}
 	sqlite3_finalize(s);
+	s = nullptr;
 
 	// Rule->Context hits
 	if (sqlite3_prepare_v2(db, "INSERT INTO rule_contexts (rule, context, num_match) VALUES (:rule, :context, :num_match)", -1, &s, nullptr) != SQLITE_OK) {
@@ -173,10 +193,22 @@ void Profiler::write(const char* fname) {
 		}
 	}
 	sqlite3_finalize(s);
+	s = nullptr;
 
 	if (sqlite3_exec(db, "COMMIT") != SQLITE_OK) {
 		throw std::runtime_error(concat("sqlite3 error while committing: ", sqlite3_errmsg(db)));
 	}
+	if (sqlite3_close(db) != SQLITE_OK) {
+		throw std::runtime_error(concat("sqlite3 error while closing: ", sqlite3_errmsg(db)));
+	}
+	db = nullptr;
+
+	std::error_code ec;
+	fs::rename(tmp, fname, ec);
+	if (ec) {
+		remove(tmp.c_str());
+		throw std::runtime_error(concat("Could not write profile to ", fname, ": ", ec.message()));
+	}
 }
 
 void Profiler::read(const char* fname) {
-- 
2.43.0


From 795250af7a837ddae1a5a8ba9e78b63dd441be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 62/77] fix: cg-merge-annotations gave entries missing from the
 first profile no type or place

---
 src/cg-merge-annotations.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cg-merge-annotations.cpp b/src/cg-merge-annotations.cpp
index 99b890f..63241f5 100644
--- a/src/cg-merge-annotations.cpp
+++ b/src/cg-merge-annotations.cpp
@@ -51,7 +51,14 @@ int main(int argc, char* argv[]) try {
 
 		for (auto& it : in.entries) {
 			auto& ie = it.second;
-			auto& oe = out.entries[it.first];
+			auto oit = out.entries.find(it.first);
+			if (oit == out.entries.end()) {
+				auto ne = ie;
+				ne.num_match = ne.num_fail = ne.example_window = 0;
+				ne.grammar = UI32(out.addString(strings[ie.grammar]));
+				oit = out.entries.emplace(it.first, ne).first;
+			}
+			auto& oe = oit->second;
 			oe.num_match += ie.num_match;
 			oe.num_fail += ie.num_fail;
 			if (!oe.example_window && ie.example_window) {
-- 
2.43.0


From 0f7b8fbb95dcba1718681e786c695b4fbc5e72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 63/77] fix: cg-annotate ignored failed writes, aborted on
 errors, and overran its buffers for long file names

---
 src/cg-annotate.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cg-annotate.cpp b/src/cg-annotate.cpp
index 86db0a2..0cd5945 100644
--- a/src/cg-annotate.cpp
+++ b/src/cg-annotate.cpp
@@ -62,9 +62,10 @@ inline void file_save(fs::path fn, std::string_view data) {
 	std::ofstream file(fn.string(), std::ios::binary);
 	file.exceptions(std::ios::badbit | std::ios::failbit);
 	file.write(data.data(), data.size());
+	file.close();
 }
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
 	using namespace ::std::string_literals;
 	(void)argc;
 
@@ -205,7 +206,8 @@ int main(int argc, char* argv[]) {
 	auto write_grammar = [&](size_t g, UnicodeString& grammar) {
 		html.clear();
 		auto gn = strings[g];
-		html.resize(256 + gn.size());
+		auto fn_enc = xml_encode(fs::path(gn).filename());
+		html.resize(256 + fn_enc.size());
 		sz = sprintf(&html[0], R"X(<!DOCTYPE html>
 <html>
 <head>
@@ -215,7 +217,7 @@ int main(int argc, char* argv[]) {
 </head>
 <body>
 <div id="grammar" class="p-2 pre-wrap">
-)X", xml_encode(fs::path(gn).filename()).c_str());
+)X", fn_enc.c_str());
 		html.resize(sz);
 
 		auto gz = profiler.grammars[g];
@@ -324,7 +326,8 @@ int main(int argc, char* argv[]) {
 	std::swap(html, buf);
 
 	auto gn = strings[profiler.grammars.begin()->first];
-	html.resize(512 + gn.size() + buf.size());
+	auto gn_enc = xml_encode(fs::path(gn).filename());
+	html.resize(512 + gn_enc.size() + buf.size());
 	sz = sprintf(&html[0], R"X(<!DOCTYPE html>
 <html>
 <head>
@@ -338,7 +341,7 @@ int main(int argc, char* argv[]) {
 </ul>
 </body>
 </html>
-)X", xml_encode(fs::path(gn).filename()).c_str(), buf.c_str());
+)X", gn_enc.c_str(), buf.c_str());
 	html.resize(sz);
 
 	file_save("index.html", html);
@@ -420,3 +423,7 @@ a {
 }
 )X");
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	exit(1);
+}
-- 
2.43.0


From c2d12c71e9a4672b184d69e7e6b39d07dc77aed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 64/77] fix: --dump-ast or --profile in CMDARGS crashed

---
 src/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 2d22ccd..ca5fb16 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -300,6 +300,13 @@ int main(int argc, char* argv[]) try {
 		args.push_back(0);
 		parse_opts(args.data(), grammar_options_override);
 	}
+	for (auto o : { DUMP_AST, PROFILING }) {
+		// These must be known before the grammar is parsed
+		if ((grammar_options_default[o].doesOccur || grammar_options_override[o].doesOccur) && !options[o].doesOccur) {
+			std::cerr << "Error: CMDARGS may not contain --dump-ast or --profile!" << std::endl;
+			CG3Quit(1);
+		}
+	}
 	for (size_t i = 0; i < options.size(); ++i) {
 		if (grammar_options_default[i].doesOccur && !options[i].doesOccur) {
 			options[i] = grammar_options_default[i];
-- 
2.43.0


From 995e10067b0b08d79c0db0f85fdda0b8ed9af5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 65/77] fix: JSONL, Niceline, FST, Matxin, and plain text input
 ran windows before the next ones were read, or crashed with --num-windows 0

---
 src/FSTApplicator.cpp       | 2 +-
 src/JsonlApplicator.cpp     | 2 +-
 src/MatxinApplicator.cpp    | 2 +-
 src/NicelineApplicator.cpp  | 2 +-
 src/PlaintextApplicator.cpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 6535272..c178aa0 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -356,7 +356,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 				cSWindow->appendCohort(cCohort);
 				lCohort = cCohort;
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 81ddcbb..bb6e53f 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -565,7 +565,7 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				did_delim = true;
 			}
 
-			if (did_delim || gWindow->next.size() > num_windows) {
+			if (did_delim && gWindow->next.size() > num_windows) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/MatxinApplicator.cpp b/src/MatxinApplicator.cpp
index 2c0fb1d..36877d6 100644
--- a/src/MatxinApplicator.cpp
+++ b/src/MatxinApplicator.cpp
@@ -224,7 +224,7 @@ void MatxinApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index bfb9c5d..545a338 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -169,7 +169,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			if (cCohort && cSWindow) {
 				cSWindow->appendCohort(cCohort);
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
diff --git a/src/PlaintextApplicator.cpp b/src/PlaintextApplicator.cpp
index 5568a7c..268798b 100644
--- a/src/PlaintextApplicator.cpp
+++ b/src/PlaintextApplicator.cpp
@@ -160,7 +160,7 @@ void PlaintextApplicator::runGrammarOnText(std::istream& input, std::ostream& ou
 				++numWindows;
 				did_soft_lookback = false;
 			}
-			if (gWindow->next.size() > num_windows) {
+			if (gWindow->next.size() > num_windows + 1) {
 				gWindow->shuffleWindowsDown();
 				runGrammarOnWindow();
 				if (numWindows % resetAfter == 0) {
-- 
2.43.0


From bfa15e8a31d32aae34ca79e648c45bb46fbd90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 66/77] fix: detecting the format of FST input with many tags
 took exponential time

---
 src/FormatConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FormatConverter.cpp b/src/FormatConverter.cpp
index c8979b2..05e9049 100644
--- a/src/FormatConverter.cpp
+++ b/src/FormatConverter.cpp
@@ -75,7 +75,7 @@ cg3_sformat detectFormat(std::string_view buf8) {
 		}
 		uregex_close(rx);
 
-		rx = uregex_openC("^\\S+\t\\S+(\\+\\S+)+$", UREGEX_DOTALL | UREGEX_MULTILINE, 0, &status);
+		rx = uregex_openC("^\\S+\t\\S+\\+\\S+$", UREGEX_DOTALL | UREGEX_MULTILINE, 0, &status);
 		uregex_setText(rx, buffer.data(), SI32(buffer.size()), &status);
 		if (uregex_find(rx, -1, &status)) {
 			fmt = CG3SF_FST;
-- 
2.43.0


From 946d1247765efd2da9f9ea52ca2c8a8a87e3d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:36 +0000
Subject: [PATCH 67/77] fix: FST output had lines without an analysis for
 readings that are not printed

---
 src/FSTApplicator.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index c178aa0..0c114f4 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -487,15 +487,19 @@ void FSTApplicator::printCohort(Cohort* cohort, std::ostream& output, bool profi
 
 	{
 		auto& wform = cohort->wordform->tag;
-		if (cohort->readings.empty() || (cohort->readings.size() == 1 && cohort->readings[0]->noprint)) {
-			u_fprintf(output, "%.*S\t+?\n", wform.size() - 4, wform.data() + 2);
-		}
-		else {
-			for (auto rter : cohort->readings) {
-				u_fprintf(output, "%.*S\t", wform.size() - 4, wform.data() + 2);
-				printReading(rter, output);
-				u_fputc('\n', output);
+		bool printed = false;
+		for (auto rter : cohort->readings) {
+			// Readings that merged into others are not printed
+			if (rter->noprint || rter->deleted) {
+				continue;
 			}
+			u_fprintf(output, "%.*S\t", wform.size() - 4, wform.data() + 2);
+			printReading(rter, output);
+			u_fputc('\n', output);
+			printed = true;
+		}
+		if (!printed) {
+			u_fprintf(output, "%.*S\t+?\n", wform.size() - 4, wform.data() + 2);
 		}
 		u_fputc('\n', output);
 	}
-- 
2.43.0


From 339365b874fe3e84a3b7999cc5b6b6a8636c27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:36 +0000
Subject: [PATCH 68/77] fix: dependencies in JSONL input were lost unless the
 grammar uses dependencies

---
 src/JsonlApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index bb6e53f..101a8b7 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -214,6 +214,7 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 	}
 	if (obj.HasMember("dp") && obj["dp"].IsUint()) {
 		cCohort->dep_parent = obj["dp"].GetUint();
+		has_dep = true;
 	}
 
 	// parse deleted readings ("drs")
-- 
2.43.0


From 87f154e197c7ef2ee49f4ab001520d922071abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 69/77] fix: word forms in Niceline input never matched, so
 neither did delimiters

---
 src/NicelineApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 545a338..fce6dfd 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -196,6 +196,7 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 			while (space && space[0]) {
 				cReading = alloc_reading(cCohort);
 				insert_if_exists(cReading->parent->possible_sets, grammar->sets_any);
+				addTagToReading(*cReading, cCohort->wordform);
 
 				UChar* base = space;
 				if (*space == '"') {
-- 
2.43.0


From 55dc56a68db7c096e96e7e181a4273c3011cf7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:35 +0000
Subject: [PATCH 70/77] fix: JSONL output had unresolved dependency parents as
 the number of some other cohort

---
 src/JsonlApplicator.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 101a8b7..0e2d505 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -758,8 +758,15 @@ void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool pro
 	if (has_dep && !(cohort->type & CT_REMOVED)) {
 		auto self_id = (cohort->dep_self == 0) ? cohort->global_number : cohort->dep_self;
 		doc.AddMember("ds", self_id, allocator);
-		if (cohort->dep_parent != DEP_NO_PARENT) {
-			doc.AddMember("dp", cohort->dep_parent, allocator);
+		if (cohort->dep_parent == 0) {
+			doc.AddMember("dp", 0, allocator);
+		}
+		else if (cohort->dep_parent != DEP_NO_PARENT) {
+			// Numbers from the input that were never resolved must not turn into some other cohort's number
+			auto it = gWindow->cohort_map.find(cohort->dep_parent);
+			if (it != gWindow->cohort_map.end()) {
+				doc.AddMember("dp", it->second->local_number == 0 ? 0 : cohort->dep_parent, allocator);
+			}
 		}
 	}
 
-- 
2.43.0


From 0d48413f38dc775630a4ff3ec568c9184f5f9f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:04 +0000
Subject: [PATCH 71/77] fix: a flush after nothing but text in Apertium input
 was no longer one in CG output

---
 src/ApertiumApplicator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 44ca35b..5e8409b 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -235,6 +235,9 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 				lSWindow->text += blank;
 			}
 			else {
+				if (fmt_output != CG3SF_JSONL && fmt_output != CG3SF_APERTIUM && fmt_output != CG3SF_MATXIN && !ISNL(blank.back())) {
+					blank += '\n'; // What follows must be on a line of its own
+				}
 				printPlainTextLine(blank, output);
 			}
 			blank.clear();
-- 
2.43.0


From 0aa4958948b082f58b97f533dde39568134cee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:28 +0000
Subject: [PATCH 72/77] fix: REMPARENT and SWITCHPARENT had no effect unless
 other rules of the grammar used dependencies

---
 src/TextualParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index afa28e6..b7f4641 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -1546,7 +1546,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 			rule->dep_tests.pop_back();
 		}
 	}
-	if (key == K_SETPARENT || key == K_SETCHILD || key == K_SPLITCOHORT || key == K_MERGECOHORTS) {
+	if (key == K_SETPARENT || key == K_SETCHILD || key == K_REMPARENT || key == K_SWITCHPARENT || key == K_SPLITCOHORT || key == K_MERGECOHORTS) {
 		result->has_dep = true;
 	}
 	if (key == K_SETRELATION || key == K_SETRELATIONS || key == K_ADDRELATION || key == K_ADDRELATIONS || key == K_REMRELATION || key == K_REMRELATIONS || key == K_MERGECOHORTS) {
-- 
2.43.0


From 83e3f22994ed915cf1daefb42cc0383e593de8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 73/77] fix: a cohort without a parent got its number from the
 input back when a rule changed its readings

---
 src/GrammarApplicator_reflow.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index f8569d4..905f8da 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -257,6 +257,10 @@ void GrammarApplicator::reflowDependencyWindow(uint32_t max) {
 				break;
 			}
 			if (cohort->dep_parent == DEP_NO_PARENT) {
+				if (cohort->dep_self == cohort->global_number) {
+					// A later reflow of the readings must not bring the input's number back
+					cohort->type |= CT_DEP_DONE;
+				}
 				continue;
 			}
 			if (cohort->dep_self == cohort->global_number) {
-- 
2.43.0


From 514c3bbff98c4d941a2be55219e85f3341fe7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:17 +0000
Subject: [PATCH 74/77] fix: binary output lost dependencies and relations in
 the input unless the grammar uses them

---
 src/BinaryApplicator.cpp  | 5 ++++-
 src/GrammarApplicator.cpp | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index a9d6979..80f4cdc 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -593,7 +593,10 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					if (tter == reading->baseform || tter == reading->parent->wordform->hash) {
 						continue;
 					}
-					if (tag->type & (T_DEPENDENCY | T_RELATION)) {
+					if (tag->type & T_DEPENDENCY) {
+						continue;
+					}
+					if ((tag->type & T_RELATION) && has_relations) {
 						continue;
 					}
 					if (unique_tags) {
diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 7cd2766..9b32cc3 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -151,7 +151,8 @@ void GrammarApplicator::index() {
 	if (grammar->ordered) {
 		ordered = true;
 	}
-	if (grammar->has_dep || dep_delimit) {
+	// Binary output can only have dependencies as such, not as mere tags
+	if (grammar->has_dep || dep_delimit || fmt_output == CG3SF_BINARY) {
 		parse_dep = true;
 	}
 
-- 
2.43.0


From 983870572feb33d56d6522dd535a418337194db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:47 +0000
Subject: [PATCH 75/77] fix: readings with several mapping tags lost their
 sub-readings in Apertium, binary, and JSONL input, and removed readings lost
 their mapping tags or came back

---
 src/ApertiumApplicator.cpp       | 16 ++++++++++++
 src/BinaryApplicator.cpp         | 45 +++++++++++++++++++++++++-------
 src/GrammarApplicator_reflow.cpp | 12 +++++++++
 src/JsonlApplicator.cpp          | 28 ++++++++++++++------
 src/JsonlApplicator.hpp          |  2 +-
 src/libcg3.cpp                   |  6 ++---
 6 files changed, 87 insertions(+), 22 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 5e8409b..ae11c60 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -626,6 +626,9 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 		taglist.insert(taglist.end(), prefix_tags.begin(), prefix_tags.end());
 	}
 
+	// Only whole readings can be split by mapping tags, so do that when the sub-readings are in place
+	TagList all_mappings;
+
 	// Search from the back until we find a baseform, then add all tags from there until the end onto the reading
 	while (!taglist.empty()) {
 		Reading* reading = cReading;
@@ -650,6 +653,15 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 						addTagToReading(*reading, *iter);
 					}
 				}
+				if (reading == cReading && !grammar->sub_readings_ltr) {
+					all_mappings.swap(mappings);
+				}
+				else if (reading != cReading || riter.base() - 1 != taglist.begin()) {
+					while (mappings.size() > 1) {
+						u_fprintf(ux_stderr, "Warning: Sub-reading mapping %S on line %u will be discarded.\n", mappings.back()->tag.data(), numLines);
+						mappings.pop_back();
+					}
+				}
 				if (!mappings.empty()) {
 					splitMappings(mappings, *reading->parent, *reading, true);
 				}
@@ -662,6 +674,10 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 		}
 	}
 
+	if (!all_mappings.empty()) {
+		splitMappings(all_mappings, *cReading->parent, *cReading, true);
+	}
+
 	assert(taglist.empty() && "ApertiumApplicator::processReading() did not handle all tags.");
 }
 
diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 80f4cdc..2e7675e 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -331,13 +331,37 @@ void BinaryApplicator::readWindow(void*& payload) {
 		if (!reading_count) {
 			initEmptyCohort(*cCohort);
 		}
+		// Only whole readings can be split by mapping tags, so wait for their sub-readings
+		Reading* top = nullptr;
 		Reading* prev = nullptr;
+		TagList top_mappings;
+		bool top_deleted = false;
+		auto append_top = [&]() {
+			if (!top) {
+				return;
+			}
+			auto old_size = cCohort->readings.size();
+			if (!top_mappings.empty()) {
+				splitMappings(top_mappings, *cCohort, *top, true);
+			}
+			cCohort->appendReading(top);
+			if (top_deleted) {
+				cCohort->deleted.insert(cCohort->deleted.end(), cCohort->readings.begin() + old_size, cCohort->readings.end());
+				cCohort->readings.resize(old_size);
+			}
+			top = nullptr;
+			top_mappings.clear();
+		};
 		for (uint16_t rn = 0; rn < reading_count; ++rn) {
+			READ_U16_INTO(flags);
+			bool is_sub = prev && (flags & BFR_SUBREADING);
+			if (!is_sub) {
+				append_top();
+			}
+
 			Reading* cReading = alloc_reading(cCohort);
 			addTagToReading(*cReading, cCohort->wordform);
 
-			READ_U16_INTO(flags);
-
 			READ_U16_INTO(tag);
 			addTagToReading(*cReading, WINDOW_TAG(tag));
 
@@ -352,22 +376,23 @@ void BinaryApplicator::readWindow(void*& payload) {
 					addTagToReading(*cReading, WINDOW_TAG(tag));
 				}
 			}
-			if (!mappings.empty()) {
-				splitMappings(mappings, *cCohort, *cReading, true);
-			}
 
-			if (prev && (flags & BFR_SUBREADING)) {
+			if (is_sub) {
+				if (!mappings.empty()) {
+					mappings.resize(1);
+					splitMappings(mappings, *cCohort, *cReading, true);
+				}
 				prev->next = cReading;
 			}
-			else if (flags & BFR_DELETED) {
-				cCohort->deleted.push_back(cReading);
-			}
 			else {
-				cCohort->appendReading(cReading);
+				top = cReading;
+				top_mappings.swap(mappings);
+				top_deleted = (flags & BFR_DELETED) != 0;
 			}
 			prev = cReading;
 			++numReadings;
 		}
+		append_top();
 
 		if (cn + 1 == cohort_count) {
 			for (auto iter : cCohort->readings) {
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 905f8da..a011447 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -685,6 +685,18 @@ void GrammarApplicator::splitAllMappings(all_mappings_t& all_mappings, Cohort& c
 		}
 		splitMappings(iter->second, cohort, *reading, mapped);
 	}
+	readings = cohort.deleted;
+	cohort.deleted.clear();
+	for (auto reading : readings) {
+		auto iter = all_mappings.find(reading);
+		if (iter != all_mappings.end()) {
+			auto old_size = cohort.readings.size();
+			splitMappings(iter->second, cohort, *reading, mapped);
+			cohort.deleted.insert(cohort.deleted.end(), cohort.readings.begin() + old_size, cohort.readings.end());
+			cohort.readings.resize(old_size);
+		}
+		cohort.deleted.push_back(reading);
+	}
 	std::sort(cohort.readings.begin(), cohort.readings.end(), Reading::cmp_number);
 	if (!grammar->reopen_mappings.empty()) {
 		for (auto reading : cohort.readings) {
diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 0e2d505..320a9d1 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -73,7 +73,7 @@ UString json_to_ustring(const json::Value& val) {
 }
 
 // Helper function to parse a single reading (and its potential subreadings) from JSON
-Reading* JsonlApplicator::parseJsonReading(const json::Value& reading_obj, Cohort* parentCohort) {
+Reading* JsonlApplicator::parseJsonReading(const json::Value& reading_obj, Cohort* parentCohort, bool is_sub) {
 	if (!reading_obj.IsObject()) {
 		u_fprintf(ux_stderr, "Error: Expected reading object, but got different type on line %u.\n", numLines);
 		return nullptr;
@@ -101,9 +101,9 @@ Reading* JsonlApplicator::parseJsonReading(const json::Value& reading_obj, Cohor
 	}
 
 	// Parse tags ("ts")
+	TagList mappings;
 	if (reading_obj.HasMember("ts") && reading_obj["ts"].IsArray()) {
 		auto& tags_arr = reading_obj["ts"];
-		TagList mappings;
 		for (auto& tag_val : tags_arr.GetArray()) {
 			auto tag_str = json_to_ustring(tag_val);
 			if (!tag_str.empty()) {
@@ -116,16 +116,13 @@ Reading* JsonlApplicator::parseJsonReading(const json::Value& reading_obj, Cohor
 				}
 			}
 		}
-		if (!mappings.empty()) {
-			splitMappings(mappings, *parentCohort, *cReading, true);
-		}
 	}
 
 	// Parse subreading ("s") recursively
 	if (reading_obj.HasMember("s")) {
 		auto& sub_reading_val = reading_obj["s"];
 		if (sub_reading_val.IsObject()) {
-			auto subReading = parseJsonReading(sub_reading_val, parentCohort);
+			auto subReading = parseJsonReading(sub_reading_val, parentCohort, true);
 			if (subReading) {
 				cReading->next = subReading;
 			}
@@ -144,6 +141,15 @@ Reading* JsonlApplicator::parseJsonReading(const json::Value& reading_obj, Cohor
 		u_fprintf(ux_stderr, "Warning: Reading on line %u ended up with no baseform. Using wordform.\n", numLines);
 	}
 
+	// Only whole readings can be split by mapping tags
+	if (!mappings.empty()) {
+		while (is_sub && mappings.size() > 1) {
+			u_fprintf(ux_stderr, "Warning: Sub-reading mapping %S on line %u will be discarded.\n", mappings.back()->tag.data(), numLines);
+			mappings.pop_back();
+		}
+		splitMappings(mappings, *parentCohort, *cReading, true);
+	}
+
 	return cReading;
 }
 
@@ -223,10 +229,16 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 			if (!dr_val.IsObject()) {
 				continue;
 			}
+			auto old_size = cCohort->readings.size();
 			auto delR = parseJsonReading(dr_val, cCohort);
 			if (delR) {
-				delR->deleted = true;
-				cCohort->deleted.push_back(delR);
+				// Mapping tags may have made it several
+				cCohort->appendReading(delR);
+				for (auto i = old_size; i < cCohort->readings.size(); ++i) {
+					cCohort->readings[i]->deleted = true;
+					cCohort->deleted.push_back(cCohort->readings[i]);
+				}
+				cCohort->readings.resize(old_size);
 			}
 			else {
 				u_fprintf(ux_stderr, "Error: Failed to parse deleted reading on line %u.\n", numLines);
diff --git a/src/JsonlApplicator.hpp b/src/JsonlApplicator.hpp
index c2d986a..edf0585 100644
--- a/src/JsonlApplicator.hpp
+++ b/src/JsonlApplicator.hpp
@@ -40,7 +40,7 @@ protected:
 
 private:
 	void parseJsonCohort(const rapidjson::Value& obj, SingleWindow* cSWindow, Cohort*& cCohort);
-	Reading* parseJsonReading(const rapidjson::Value& reading_obj, Cohort* parentCohort);
+	Reading* parseJsonReading(const rapidjson::Value& reading_obj, Cohort* parentCohort, bool is_sub = false);
 	void buildJsonReading(const Reading* reading, rapidjson::Value& reading_json, rapidjson::Document::AllocatorType& allocator);
 	void buildJsonTags(const Reading* reading, rapidjson::Value& tags_json, rapidjson::Document::AllocatorType& allocator);
 };
diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 9be3bd1..5f3797e 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -384,12 +384,12 @@ inline Reading* _reading_copy(Cohort* nc, Reading* oldr, bool is_sub = false) {
 			ga->addTagToReading(*nr, nt);
 		}
 	}
-	if (!mappings.empty() && (!is_sub || mappings.size() == 1)) {
-		ga->splitMappings(mappings, *nc, *nr, true);
-	}
 	if (oldr->next) {
 		nr->next = _reading_copy(nc, oldr->next, true);
 	}
+	if (!mappings.empty() && (!is_sub || mappings.size() == 1)) {
+		ga->splitMappings(mappings, *nc, *nr, true);
+	}
 	return nr;
 }
 
-- 
2.43.0


From dd5246ae91c0067a7b82cda08c15794853179bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:05 +0000
Subject: [PATCH 76/77] fix: lines with long runs of spaces were broken in two
 where the line buffer ended

---
 src/uextras.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index a5ac867..9a0f516 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -69,6 +69,10 @@ size_t get_line_clean(UString& line, UString& cleaned, std::istream& input, bool
 			// Only copy one space character, regardless of how many are in input
 			if (ISSPACE(line[offset]) && !ISNL(line[offset])) {
 				UChar space = (line[offset] == '\t' ? '\t' : ' ');
+				if (offset && ISSPACE(line[offset - 1])) {
+					// The previous segment ended in the middle of these spaces
+					space = cleaned[--packoff];
+				}
 				while (ISSPACE(line[offset]) && !ISNL(line[offset])) {
 					if (line[offset] == '\t') {
 						space = line[offset];
@@ -92,7 +96,7 @@ size_t get_line_clean(UString& line, UString& cleaned, std::istream& input, bool
 			cleaned[packoff++] = line[offset];
 		}
 		// Either buffer wasn't big enough, or someone fed us malformed data thinking U+0085 is ellipsis when it in fact is Next Line (NEL)
-		if (packoff > line.size() / 2) {
+		if (offset > line.size() / 2) {
 			// If we reached this, buffer wasn't big enough. Double the size of the buffer and try again.
 			line.resize(line.size() * 2, 0);
 			cleaned.resize(line.size() + 1, 0);
-- 
2.43.0


From 754ff91b2652dd91bf3ca4186fb7290c9f1d7abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:50 +0000
Subject: [PATCH 77/77] fix: COPY, SELECT and REMOVE crashed when their attach
 context matched static tags

---
 src/GrammarApplicator_matchSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 1ea1fc6..d8bcd8e 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -966,6 +966,12 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 
 	if (cohort.wread && (!context || !context->in_barrier)) {
 		retval = doesSetMatchCohort_helper(cohort, *cohort.wread, *theset, context);
+		// The static tags are not a reading that rules could copy, select, or remove, so let those attach to the first one that is
+		if (retval && !cohort.readings.empty() && !context_stack.empty() &&
+			context_stack.back().attach_to.cohort == &cohort &&
+			context_stack.back().attach_to.subreading == cohort.wread) {
+			context_stack.back().attach_to.reading = cohort.readings.front();
+		}
 	}
 
 	if (retval && (!context || context->did_test)) {
-- 
2.43.0

