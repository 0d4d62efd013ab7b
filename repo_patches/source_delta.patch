From ebc14127b0cbef4a2622140d59a8eb00e8e51a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:17 +0000
Subject: [PATCH 01/39] fix: flag elimination agrees with run-time flags after
 a negative setting

@U.F.v@ and @D.F.v@ are allowed by lookup when F was last set negatively to
another value, but flag_build treated the pairs as unrelated resp. failing,
so eliminate_flags() dropped strings that lookup accepts.
---
 libhfst/src/HfstTransducer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 62f5245..822f97f 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -1864,6 +1864,8 @@ flag_build(int ftype, char *fname, char *fvalue, int fftype, char *ffname,
         return FLAG_FAIL;
     if ((ftype == FLAG_UNIFY) && (fftype == FLAG_NEGATIVE) && (eq == 0))
         return FLAG_FAIL;
+    if ((ftype == FLAG_UNIFY) && (fftype == FLAG_NEGATIVE) && (eq != 0))
+        return FLAG_SUCCEED;
 
     /* R flag with value = 0 */
     if ((ftype == FLAG_REQUIRE) && (fftype == FLAG_UNIFY) && selfnull)
@@ -1920,7 +1922,7 @@ flag_build(int ftype, char *fname, char *fvalue, int fftype, char *ffname,
         return FLAG_FAIL;
     if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_NEGATIVE) && (eq != 0)
         && !selfnull)
-        return FLAG_FAIL;
+        return FLAG_SUCCEED;
 
     return FLAG_NONE;
 }
-- 
2.43.0


From 0161cdeb6abab920901fcebc0927dc82a0bba4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:28 +0000
Subject: [PATCH 02/39] fix: HfstTransducer::prune keeps the implementation
 type

---
 libhfst/src/HfstTransducer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 822f97f..424cf9b 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -2188,6 +2188,7 @@ HfstTransducer::prune()
 {
 #if HAVE_OPENFST
     // slow for xfsm type...
+    ImplementationType original_type = this->type;
     this->convert(TROPICAL_OPENFST_TYPE);
     fst::StdVectorFst *temp
         = hfst::implementations::TropicalWeightTransducer::prune(
@@ -2195,6 +2196,7 @@ HfstTransducer::prune()
     this->tropical_ofst_interface.delete_transducer(
         this->implementation.tropical_ofst);
     this->implementation.tropical_ofst = temp;
+    this->convert(original_type);
     return *this;
 #endif
     HFST_THROW(FunctionNotImplementedException);
-- 
2.43.0


From cf0902a877fdc1c42c62ade9715f00a06b67d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:14 +0000
Subject: [PATCH 03/39] fix: set_final_weights honours increment for log
 weights

---
 libhfst/src/HfstTransducer.cc                      |  2 +-
 libhfst/src/implementations/LogWeightTransducer.cc | 10 ++++++++--
 libhfst/src/implementations/LogWeightTransducer.h  |  2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 424cf9b..caf137f 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -3989,7 +3989,7 @@ HfstTransducer::set_final_weights(float weight, bool increment)
     if (this->type == LOG_OPENFST_TYPE)
     {
         implementation.log_ofst = this->log_ofst_interface.set_final_weights(
-            this->implementation.log_ofst, weight);
+            this->implementation.log_ofst, weight, increment);
         return *this;
     }
 #endif
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index d2ec0fd..1b31493 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -363,13 +363,19 @@ LogWeightTransducer::recode_symbol_numbers(LogFst *t, NumberNumberMap &km)
 }
 
 LogFst *
-LogWeightTransducer::set_final_weights(LogFst *t, float weight)
+LogWeightTransducer::set_final_weights(LogFst *t, float weight,
+                                       bool increment)
 {
     for (fst::StateIterator<LogFst> siter(*t); !siter.Done(); siter.Next())
     {
         StateId s = siter.Value();
         if (t->Final(s) != LogWeight::Zero())
-            t->SetFinal(s, weight);
+        {
+            if (increment)
+                t->SetFinal(s, weight + t->Final(s).Value());
+            else
+                t->SetFinal(s, weight);
+        }
     }
     return t;
 }
diff --git a/libhfst/src/implementations/LogWeightTransducer.h b/libhfst/src/implementations/LogWeightTransducer.h
index 9602a49..4ad0cc4 100644
--- a/libhfst/src/implementations/LogWeightTransducer.h
+++ b/libhfst/src/implementations/LogWeightTransducer.h
@@ -162,7 +162,7 @@ namespace implementations
       static LogFst * subtract(LogFst * t1,
                             LogFst * t2);
       static LogFst * set_weight(LogFst * t,float f);
-      static LogFst * set_final_weights(LogFst * t, float weight);
+      static LogFst * set_final_weights(LogFst *t, float weight, bool increment = false);
       static LogFst * transform_weights(LogFst * t,float (*func)(float f));
       static LogFst * push_labels(LogFst * t, bool to_initial_state);
       static LogFst * push_weights(LogFst * t, bool to_initial_state);
-- 
2.43.0


From dd55d14b651dc1d9b11fc48750cc0b8d94167352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:10 +0000
Subject: [PATCH 04/39] fix: conversion to log weights keeps arcs' source
 states and the shared symbol numbers

---
 .../ConvertLogWeightTransducer.cc             | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/libhfst/src/implementations/ConvertLogWeightTransducer.cc b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
index 2441430..017d525 100644
--- a/libhfst/src/implementations/ConvertLogWeightTransducer.cc
+++ b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
@@ -249,6 +249,15 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
     st.AddSymbol(internal_unknown, 1);
     st.AddSymbol(internal_identity, 2);
 
+    // Copy the alphabet
+    for (HfstBasicTransducer::HfstAlphabet::const_iterator it
+         = net->alphabet.begin();
+         it != net->alphabet.end(); it++)
+    {
+        assert(!it->empty());
+        st.AddSymbol(*it, net->get_symbol_number(*it));
+    }
+
     // Go through all states
     unsigned int source_state = 0;
     for (HfstBasicTransducer::const_iterator it = net->begin();
@@ -261,12 +270,13 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
             // Copy the transition
             t->AddArc(
                 hfst_state_to_state_id(source_state, state_map, t),
-                fst::LogArc(st.AddSymbol(tr_it->get_input_symbol()),
-                            st.AddSymbol(tr_it->get_output_symbol()),
+                fst::LogArc(tr_it->get_input_number(),
+                            tr_it->get_output_number(),
                             tr_it->get_weight(),
                             hfst_state_to_state_id(tr_it->get_target_state(),
                                                    state_map, t)));
         }
+        source_state++;
     }
 
     // Go through the final states
@@ -278,14 +288,6 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
                     it->second);
     }
 
-    // Add also symbols that do not occur in transitions
-    for (HfstBasicTransducer::HfstAlphabet::const_iterator it
-         = net->alphabet.begin();
-         it != net->alphabet.end(); it++)
-    {
-        st.AddSymbol(*it);
-    }
-
     t->SetInputSymbols(&st);
     return t;
 }
-- 
2.43.0


From c3d8b8c295da4865033aba33f024a1353c2d50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:57 +0000
Subject: [PATCH 05/39] fix: log weight operations pass OpenFst compatible
 symbol tables

---
 libhfst/src/implementations/LogWeightTransducer.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index 1b31493..117b81f 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -1509,11 +1509,11 @@ LogWeightTransducer::repeat_n(LogFst *t, unsigned int n)
     }
 
     LogFst *repetition = create_epsilon_transducer();
+    repetition->SetInputSymbols(t->InputSymbols());
     for (unsigned int i = 0; i < n; ++i)
     {
         Concat(repetition, *t);
     }
-    repetition->SetInputSymbols(t->InputSymbols());
     return repetition;
 }
 
@@ -1526,13 +1526,13 @@ LogWeightTransducer::repeat_le_n(LogFst *t, unsigned int n)
     }
 
     LogFst *repetition = create_epsilon_transducer();
+    repetition->SetInputSymbols(t->InputSymbols());
     for (unsigned int i = 0; i < n; ++i)
     {
         LogFst *optional_t = optionalize(t);
         Concat(repetition, *optional_t);
         delete optional_t;
     }
-    repetition->SetInputSymbols(t->InputSymbols());
     return repetition;
 }
 
@@ -1540,8 +1540,8 @@ LogFst *
 LogWeightTransducer::optionalize(LogFst *t)
 {
     LogFst *eps = create_epsilon_transducer();
-    Union(eps, *t);
     eps->SetInputSymbols(t->InputSymbols());
+    Union(eps, *t);
     return eps;
 }
 
@@ -1905,6 +1905,8 @@ LogWeightTransducer::compose(LogFst *t1, LogFst *t2)
     Compose(*t1, *t2_, result);
     delete t2_;
 
+    t1->SetOutputSymbols(NULL);
+    result->SetOutputSymbols(NULL);
     result->SetInputSymbols(t1->InputSymbols());
     return result;
 }
@@ -2027,6 +2029,9 @@ LogWeightTransducer::intersect(LogFst *t1, LogFst *t2)
     DecodeFst<LogArc> decode(*foo, encoder);
     delete foo;
     LogFst *result = new LogFst(decode);
+    t1->SetOutputSymbols(NULL);
+    t2->SetOutputSymbols(NULL);
+    result->SetOutputSymbols(NULL);
     result->SetInputSymbols(t1->InputSymbols());
     return result;
 }
@@ -2077,6 +2082,9 @@ LogWeightTransducer::subtract(LogFst *t1, LogFst *t2)
 
     // DifferenceFst<LogArc> subtract(enc1,enc2);
     LogFst *result = new LogFst(subtract);
+    t1->SetOutputSymbols(NULL);
+    t2->SetOutputSymbols(NULL);
+    result->SetOutputSymbols(NULL);
     result->SetInputSymbols(t1->InputSymbols());
     return result;
 }
-- 
2.43.0


From e3427981b23de71ba23f1935e66ad6a555405b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:04 +0000
Subject: [PATCH 06/39] fix: projections of log weight transducers turn unknown
 into identity

---
 libhfst/src/implementations/LogWeightTransducer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index 117b81f..d7ccb29 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -1567,7 +1567,9 @@ LogWeightTransducer::reverse(LogFst *t)
 LogFst *
 LogWeightTransducer::extract_input_language(LogFst *t)
 {
-    LogFst *retval = new LogFst(ProjectFst<LogArc>(*t, ProjectType::INPUT));
+    LogFst *proj = new LogFst(ProjectFst<LogArc>(*t, ProjectType::INPUT));
+    LogFst *retval = substitute(proj, 1, 2);
+    delete proj;
     retval->SetInputSymbols(t->InputSymbols());
     return retval;
 }
@@ -1575,7 +1577,9 @@ LogWeightTransducer::extract_input_language(LogFst *t)
 LogFst *
 LogWeightTransducer::extract_output_language(LogFst *t)
 {
-    LogFst *retval = new LogFst(ProjectFst<LogArc>(*t, ProjectType::OUTPUT));
+    LogFst *proj = new LogFst(ProjectFst<LogArc>(*t, ProjectType::OUTPUT));
+    LogFst *retval = substitute(proj, 1, 2);
+    delete proj;
     retval->SetInputSymbols(t->InputSymbols());
     return retval;
 }
-- 
2.43.0


From e44c1e408703828351112a5b09f021d7d7ab5377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 07/39] fix: --input2 of the binary tools names the second
 input

---
 tools/src/hfst-program-options.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-program-options.h b/tools/src/hfst-program-options.h
index 05abca4..f29ab2b 100644
--- a/tools/src/hfst-program-options.h
+++ b/tools/src/hfst-program-options.h
@@ -67,7 +67,7 @@ void print_common_binary_program_parameter_instructions(FILE *file);
 #define HFST_GETOPT_BINARY_SHORT "1:2:o:C"
 #define HFST_GETOPT_BINARY_LONG                                               \
     { "input1", required_argument, 0, '1' },                                  \
-        { "input2", required_argument, 0, '1' },                              \
+        { "input2", required_argument, 0, '2' },                              \
         { "output", required_argument, 0, 'o' },                              \
         { "do-not-convert", no_argument, 0, 'C' }
 
-- 
2.43.0


From 3c027920abe27d80f45f678cbf1336fbdaf18387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 08/39] fix: hfst-expand-equivalences handles --input

---
 tools/src/hfst-expand-equivalences.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/hfst-expand-equivalences.cc b/tools/src/hfst-expand-equivalences.cc
index c2f5fc2..aa0ce1e 100644
--- a/tools/src/hfst-expand-equivalences.cc
+++ b/tools/src/hfst-expand-equivalences.cc
@@ -130,6 +130,7 @@ parse_options(int argc, char** argv)
         switch (c)
         {
 #include "inc/getopt-cases-common.h"
+#include "inc/getopt-cases-unary.h"
             case 'f':
               only_from_label = hfst_strdup(optarg);
               break;
-- 
2.43.0


From 35ba19c30d91d3dbad69f400e11bc7904ade6e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 09/39] fix: hfst-insert-freely --harmonise takes no argument,
 as -H and the usage text

---
 tools/src/hfst-insert-freely.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-insert-freely.cc b/tools/src/hfst-insert-freely.cc
index 6bb2cb0..0bfa9f7 100644
--- a/tools/src/hfst-insert-freely.cc
+++ b/tools/src/hfst-insert-freely.cc
@@ -167,7 +167,7 @@ parse_options(int argc, char** argv)
           HFST_GETOPT_UNARY_LONG,
           // add tool-specific options here
           {"symbol-pair", required_argument, 0, 'a'},
-          {"harmonise", required_argument, 0, 'H'},
+          {"harmonise", no_argument, 0, 'H'},
           {0,0,0,0}
         };
         int option_index = 0;
-- 
2.43.0


From c6838008ee93ddaf1aca5820377f1ed279e7e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 10/39] fix: hfst-grep -m requires its argument

---
 tools/src/hfst-grep.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-grep.cc b/tools/src/hfst-grep.cc
index 8c0c4bc..587afb2 100644
--- a/tools/src/hfst-grep.cc
+++ b/tools/src/hfst-grep.cc
@@ -271,7 +271,7 @@ parse_options(int argc, char **argv)
         // add tool-specific options here
         int c = getopt_long(argc, argv,
                             HFST_GETOPT_COMMON_SHORT HFST_GETOPT_UNARY_SHORT
-                            "EFGPXe:f:IwxzqmbnOad:D:rLlcZA:B:C:uU9:",
+                            "EFGPXe:f:Iwxzqm:bnOad:D:rLlcZA:B:C:uU9:",
                             long_options, &option_index);
         if (-1 == c)
         {
-- 
2.43.0


From 6a5ddeeee2f24a9a06d5a4228caf7a2d79039683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 11/39] fix: hfst-pmatch --weight-cutoff does not set the time
 cutoff

---
 tools/src/hfst-pmatch.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/hfst-pmatch.cc b/tools/src/hfst-pmatch.cc
index bb21da7..140a381 100644
--- a/tools/src/hfst-pmatch.cc
+++ b/tools/src/hfst-pmatch.cc
@@ -394,6 +394,7 @@ parse_options(int argc, char **argv)
                 std::cerr << "Invalid argument for --weight-cutoff\n";
                 return EXIT_FAILURE;
             }
+            break;
         case 't':
             time_cutoff = atof(optarg);
             if (time_cutoff < 0.0)
-- 
2.43.0


From 6d74af91e5014cc7e7b387cc477041aec98838b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:25 +0000
Subject: [PATCH 12/39] fix: hfst-flookup -X does not run into the next option

---
 tools/src/hfst-flookup.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index f0b871e..162c7bb 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -473,6 +473,7 @@ parse_options(int argc, char **argv)
                 hfst_error(EXIT_FAILURE, 0, "Xfst variable %s unrecognised",
                            optarg);
             }
+            break;
         case 'c':
             infinite_cutoff = (size_t)atoi(hfst_strdup(optarg));
             break;
-- 
2.43.0


From 1bfb3852a768cb56b0fd00f631318a7bb2e8dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:14 +0000
Subject: [PATCH 13/39] fix: swap_state_numbers keeps both states final when
 both were

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 428312b..5435d6a 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -693,13 +693,13 @@ HfstBasicTransducer::swap_state_numbers(HfstState s1, HfstState s2)
         final_weight_map[s1] = s2_it->second;
         final_weight_map[s2] = s1_weight;
     }
-    if (s1_it != end_it)
+    else if (s1_it != end_it)
     {
         HfstTropicalTransducerTransitionData::WeightType w = s1_it->second;
         final_weight_map.erase(s1);
         final_weight_map[s2] = w;
     }
-    if (s2_it != end_it)
+    else if (s2_it != end_it)
     {
         HfstTropicalTransducerTransitionData::WeightType w = s2_it->second;
         final_weight_map.erase(s2);
-- 
2.43.0


From 47305028a86fe08c5cccb7a551eb34ea913c13cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:14 +0000
Subject: [PATCH 14/39] fix: HfstBasicTransducer::remove_transitions removes
 adjacent matches

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 5435d6a..7b3b809 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2087,6 +2087,7 @@ HfstBasicTransducer::remove_transitions(const HfstSymbolPair &sp)
             if (in_tr == in_match && out_tr == out_match)
             {
                 it.erase(it.begin() + i);
+                i--; // the next transition has moved to this place
             }
             else
             {
-- 
2.43.0


From c8e16ff138dfb57c7d096b9ea875f9f7ef1e3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:14 +0000
Subject: [PATCH 15/39] fix: substituting a symbol pair with a graph erases the
 right transitions

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 7b3b809..34b6a4f 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2529,7 +2529,7 @@ HfstBasicTransducer::substitute(const HfstSymbolPair &sp,
     {
 
         // The transitions that are substituted, i.e. removed
-        std::vector<HfstBasicTransitions::iterator> old_transitions;
+        std::stack<HfstBasicTransitions::iterator> old_transitions;
 
         // Go through all transitions
         for (HfstBasicTransitions::iterator tr_it = it.begin();
@@ -2547,16 +2547,18 @@ HfstBasicTransducer::substitute(const HfstSymbolPair &sp,
                     source_state, tr_it->get_target_state(), data.get_weight(),
                     const_cast<HfstBasicTransducer *>(&graph)));
                 // schedule the old transition to be deleted
-                old_transitions.push_back(tr_it);
+                old_transitions.push(tr_it);
             }
             // (one transition gone through)
         }
         // (all transitions in a state gone through)
 
         // Remove the substituted transitions
-        for (auto &old_transition : old_transitions)
+        // (in reverse order so that iterators are not invalidated)
+        while (!old_transitions.empty())
         {
-            it.erase(old_transition);
+            it.erase(old_transitions.top());
+            old_transitions.pop();
         }
 
         source_state++;
-- 
2.43.0


From a57147840ee19e4ba3b40e3d939c95955c957418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:14 +0000
Subject: [PATCH 16/39] fix: substituting a symbol pair does not duplicate the
 first substitute

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 34b6a4f..6567cc0 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2165,6 +2165,7 @@ HfstBasicTransducer::substitute_(const HfstSymbolPair &old_sp,
 
                 // and schedule the rest of the substituting transitions
                 // in new_sps to be added to the current state.
+                IT++;
                 while (IT != new_sps.end())
                 {
                     HfstBasicTransition TR(
@@ -2269,6 +2270,7 @@ HfstBasicTransducer::substitute_(bool (*func)(const HfstSymbolPair &sp,
 
                 // and schedule the rest of the elements in new_sps
                 // to be added to this state.
+                IT++;
                 while (IT != substituting_transitions.end())
                 {
 
-- 
2.43.0


From fdc65776d1807f18f0a9e6f6209c8973bfc0b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:14 +0000
Subject: [PATCH 17/39] fix: substitutions keep the special symbols in the
 alphabet

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 6567cc0..4c115e2 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -271,7 +271,8 @@ HfstBasicTransducer::prune_alphabet_after_substitution(
     // occur in any transitions
     for (unsigned int symbol : symbols)
     {
-        if (!symbols_found.at(symbol))
+        // (special symbols are always included in the alphabet)
+        if (!symbols_found.at(symbol) && symbol > 2)
             alphabet.erase(
                 HfstTropicalTransducerTransitionData::get_symbol(symbol));
     }
@@ -2103,12 +2104,12 @@ HfstBasicTransducer::remove_transitions(const HfstSymbolPair &sp)
         }
     }
 
-    // Handle the alphabet
-    if (!in_match_used)
+    // Handle the alphabet (special symbols are always included in it)
+    if (!in_match_used && in_match > 2)
     {
         alphabet.erase(sp.first);
     }
-    if (!out_match_used)
+    if (!out_match_used && out_match > 2)
     {
         alphabet.erase(sp.second);
     }
-- 
2.43.0


From 90f466bf4d0ea1f25933ff8f50f0c7bfc3aa3601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:22 +0000
Subject: [PATCH 18/39] fix: remove_transition keeps special symbols in the
 alphabet

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 4c115e2..56684d0 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -511,6 +511,10 @@ HfstBasicTransducer::remove_transition(
     if (remove_symbols_from_alphabet)
     {
         HfstBasicTransducer::HfstAlphabet alpha = this->symbols_used();
+        /* Special symbols are always included in the alphabet */
+        alpha.insert(internal_epsilon);
+        alpha.insert(internal_unknown);
+        alpha.insert(internal_identity);
         if (alpha.find(transition.get_input_symbol()) == alpha.end())
             this->remove_symbol_from_alphabet(transition.get_input_symbol());
         if (alpha.find(transition.get_output_symbol()) == alpha.end())
-- 
2.43.0


From 342bb3822fcf9a7b8174dbe146ad089ccb62220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 19/39] fix: tables indexed by a byte have an entry for every
 byte value

---
 libhfst/src/HfstTokenizer.cc      | 4 ++--
 tools/src/hfst-optimized-lookup.h | 6 +++---
 tools/src/hfst-proc/alphabet.cc   | 3 ++-
 tools/src/hfst-proc/alphabet.h    | 9 +++++----
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/libhfst/src/HfstTokenizer.cc b/libhfst/src/HfstTokenizer.cc
index c80e07b..43d6eea 100644
--- a/libhfst/src/HfstTokenizer.cc
+++ b/libhfst/src/HfstTokenizer.cc
@@ -62,8 +62,8 @@ MultiCharSymbolTrie::get_symbol_rest_trie(const char *p) const
 }
 
 MultiCharSymbolTrie::MultiCharSymbolTrie(void)
-    : symbol_rests(UCHAR_MAX, (MultiCharSymbolTrie *)NULL),
-      is_leaf(UCHAR_MAX, false)
+    : symbol_rests(UCHAR_MAX + 1, (MultiCharSymbolTrie *)NULL),
+      is_leaf(UCHAR_MAX + 1, false)
 {
 }
 
diff --git a/tools/src/hfst-optimized-lookup.h b/tools/src/hfst-optimized-lookup.h
index 8ac903a..3bc0f24 100644
--- a/tools/src/hfst-optimized-lookup.h
+++ b/tools/src/hfst-optimized-lookup.h
@@ -300,8 +300,8 @@ private:
 
 public:
     LetterTrie(void):
-        letters(UCHAR_MAX, (LetterTrie*) NULL),
-        symbols(UCHAR_MAX,NO_SYMBOL_NUMBER)
+        letters(UCHAR_MAX + 1, (LetterTrie*) NULL),
+        symbols(UCHAR_MAX + 1,NO_SYMBOL_NUMBER)
         {}
 
     void add_string(const char * p,SymbolNumber symbol_key);
@@ -323,7 +323,7 @@ private:
 public:
     Encoder(KeyTable * kt, SymbolNumber input_symbol_count):
         number_of_input_symbols(input_symbol_count),
-        ascii_symbols(UCHAR_MAX,NO_SYMBOL_NUMBER)
+        ascii_symbols(UCHAR_MAX + 1,NO_SYMBOL_NUMBER)
         {
             read_input_symbols(kt);
         }
diff --git a/tools/src/hfst-proc/alphabet.cc b/tools/src/hfst-proc/alphabet.cc
index 168ad7b..0fa94f1 100644
--- a/tools/src/hfst-proc/alphabet.cc
+++ b/tools/src/hfst-proc/alphabet.cc
@@ -139,7 +139,8 @@ Symbolizer::extract_symbol(std::istream &is) const
     int c = is.peek();
     if (c == 0)
         return NO_SYMBOL_NUMBER;
-    if (ascii_symbols[c] == NO_SYMBOL_NUMBER || ascii_symbols[c] == 0)
+    if (c == EOF || ascii_symbols[c] == NO_SYMBOL_NUMBER
+        || ascii_symbols[c] == 0)
         return letters.extract_symbol(is);
 
     return ascii_symbols[is.get()];
diff --git a/tools/src/hfst-proc/alphabet.h b/tools/src/hfst-proc/alphabet.h
index d3b7c63..2d25b2b 100644
--- a/tools/src/hfst-proc/alphabet.h
+++ b/tools/src/hfst-proc/alphabet.h
@@ -39,9 +39,10 @@ class LetterTrie
 
   public:
     LetterTrie(void)
-        : letters(std::numeric_limits<unsigned char>::max(),
+        : letters(std::numeric_limits<unsigned char>::max() + 1,
                   (LetterTrie *)NULL),
-          symbols(std::numeric_limits<unsigned char>::max(), NO_SYMBOL_NUMBER)
+          symbols(std::numeric_limits<unsigned char>::max() + 1,
+                  NO_SYMBOL_NUMBER)
     {
     }
 
@@ -84,13 +85,13 @@ class Symbolizer
 
   public:
     Symbolizer()
-        : letters(), ascii_symbols(std::numeric_limits<unsigned char>::max(),
+        : letters(), ascii_symbols(std::numeric_limits<unsigned char>::max() + 1,
                                    NO_SYMBOL_NUMBER),
           symbol_count(0)
     {
     }
     Symbolizer(const SymbolTable &st)
-        : letters(), ascii_symbols(std::numeric_limits<unsigned char>::max(),
+        : letters(), ascii_symbols(std::numeric_limits<unsigned char>::max() + 1,
                                    NO_SYMBOL_NUMBER),
           symbol_count(0)
     {
-- 
2.43.0


From b22b5aea588680462c50da05376c48207a23c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 20/39] fix: fields of a prolog line are as long as the line at
 most

---
 .../implementations/HfstBasicTransducer.cc    | 57 ++++++++++---------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 56684d0..0dc9466 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1102,12 +1102,12 @@ HfstBasicTransducer::parse_prolog_network_line(const std::string &line,
                                                HfstBasicTransducer &graph)
 {
     // 'network(NAME).'
-    char namearr[100];
-    int n = sscanf(line.c_str(), "network(%s", namearr);
+    std::vector<char> namearr(line.length() + 1);
+    int n = sscanf(line.c_str(), "network(%s", &namearr[0]);
     if (n != 1)
         return false;
 
-    std::string namestr(namearr);
+    std::string namestr(&namearr[0]);
     // strip the ending ")." from namestr
     if (!strip_ending_parenthesis_and_comma(namestr))
         return false;
@@ -1248,15 +1248,15 @@ HfstBasicTransducer::parse_prolog_arc_line(const std::string &line,
                                            HfstBasicTransducer &graph)
 {
     // symbolstr can also contain the weight
-    char namestr[100];
-    char sourcestr[100];
-    char targetstr[100];
-    char symbolstr[100];
+    std::vector<char> namestr(line.length() + 1);
+    std::vector<char> sourcestr(line.length() + 1);
+    std::vector<char> targetstr(line.length() + 1);
+    std::vector<char> symbolstr(line.length() + 1);
 
-    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\t\n]", namestr,
-                   sourcestr, targetstr, symbolstr);
+    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\t\n]",
+                   &namestr[0], &sourcestr[0], &targetstr[0], &symbolstr[0]);
 
-    std::string symbol(symbolstr);
+    std::string symbol(&symbolstr[0]);
 
     // strip the ending ")." from symbolstr
     if (!strip_ending_parenthesis_and_comma(symbol))
@@ -1268,13 +1268,13 @@ HfstBasicTransducer::parse_prolog_arc_line(const std::string &line,
     {
         return false;
     }
-    if (std::string(namestr) != graph.name)
+    if (std::string(&namestr[0]) != graph.name)
     {
         return false;
     }
 
-    unsigned int source = atoi(sourcestr);
-    unsigned int target = atoi(targetstr);
+    unsigned int source = atoi(&sourcestr[0]);
+    unsigned int target = atoi(&targetstr[0]);
 
     // handle the weight that might be included in symbol string
     float weight = 0;
@@ -1299,9 +1299,9 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
                                              HfstBasicTransducer &graph)
 {
     // 'final(NAME, number).' or 'final(NAME, number, weight).'
-    char namestr[100];
-    char finalstr[100];
-    char weightstr[100];
+    std::vector<char> namestr(line.length() + 1);
+    std::vector<char> finalstr(line.length() + 1);
+    std::vector<char> weightstr(line.length() + 1);
     float weight = 0;
 
     unsigned int number_of_commas = 0;
@@ -1314,8 +1314,8 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
 
     if (number_of_commas == 1)
     {
-        int n
-            = sscanf(line.c_str(), "final(%[^,], %[^)]).", namestr, finalstr);
+        int n = sscanf(line.c_str(), "final(%[^,], %[^)]).", &namestr[0],
+                       &finalstr[0]);
         if (n != 2)
         {
             return false;
@@ -1323,13 +1323,13 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
     }
     else if (number_of_commas == 2)
     {
-        int n = sscanf(line.c_str(), "final(%[^,], %[^,], %[^)]).", namestr,
-                       finalstr, weightstr);
+        int n = sscanf(line.c_str(), "final(%[^,], %[^,], %[^)]).", &namestr[0],
+                       &finalstr[0], &weightstr[0]);
         if (n != 3)
         {
             return false;
         }
-        std::istringstream buffer(weightstr);
+        std::istringstream buffer(&weightstr[0]);
         buffer >> weight;
         if (buffer.fail()) // a float could not be read
         {
@@ -1341,10 +1341,10 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
         return false;
     }
 
-    if (std::string(namestr) != graph.name)
+    if (std::string(&namestr[0]) != graph.name)
         return false;
 
-    graph.set_final_weight(atoi(finalstr), weight);
+    graph.set_final_weight(atoi(&finalstr[0]), weight);
     return true;
 }
 
@@ -1353,15 +1353,16 @@ HfstBasicTransducer::parse_prolog_symbol_line(const std::string &line,
                                               HfstBasicTransducer &graph)
 {
     // 'symbol(NAME, "foo").'
-    char namearr[100];
-    char symbolarr[100];
-    int n = sscanf(line.c_str(), "symbol(%[^,], %s", namearr, symbolarr);
+    std::vector<char> namearr(line.length() + 1);
+    std::vector<char> symbolarr(line.length() + 1);
+    int n = sscanf(line.c_str(), "symbol(%[^,], %s", &namearr[0],
+                   &symbolarr[0]);
 
     if (n != 2)
         return false;
 
-    std::string namestr(namearr);
-    std::string symbolstr(symbolarr);
+    std::string namestr(&namearr[0]);
+    std::string symbolstr(&symbolarr[0]);
 
     if (namestr != graph.name)
         return false;
-- 
2.43.0


From 9697ab8ffe481fffa42491c7880c0141c828cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 21/39] fix: fields of an AT&T line are as long as the line at
 most

---
 libhfst/src/implementations/HfstBasicTransducer.cc    | 11 ++++++-----
 libhfst/src/implementations/LogWeightTransducer.cc    | 10 +++++-----
 .../src/implementations/TropicalWeightTransducer.cc   | 10 +++++-----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 0dc9466..182e4fc 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1729,11 +1729,12 @@ HfstBasicTransducer::add_att_line(char *line,
                                   bool warn_negs)
 {
     // scan one line that can have a maximum of five fields
-    char a1[100];
-    char a2[100];
-    char a3[100];
-    char a4[100];
-    char a5[100];
+    std::vector<char> fields(5 * (strlen(line) + 1));
+    char *a1 = &fields[0];
+    char *a2 = a1 + strlen(line) + 1;
+    char *a3 = a2 + strlen(line) + 1;
+    char *a4 = a3 + strlen(line) + 1;
+    char *a5 = a4 + strlen(line) + 1;
     // how many fields could be parsed
     int n = sscanf(line, "%s%s%s%s%s", a1, a2, a3, a4, a5);
 
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index d7ccb29..eb29b70 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -809,11 +809,11 @@ LogWeightTransducer::read_in_att_format(FILE *ifile)
         if (*line == '-') // transducer separator
             return t;
         // printf("read line: %s", line);
-        char a1[100];
-        char a2[100];
-        char a3[100];
-        char a4[100];
-        char a5[100];
+        char a1[255];
+        char a2[255];
+        char a3[255];
+        char a4[255];
+        char a5[255];
         int n = sscanf(line, "%s\t%s\t%s\t%s\t%s", a1, a2, a3, a4, a5);
         // printf("number of arguments: (%i)\n", n);
 
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 00f067f..3502726 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -994,11 +994,11 @@ TropicalWeightTransducer::read_in_att_format(FILE *ifile)
         if (*line == '-') // transducer separator
             return t;
 
-        char a1[100];
-        char a2[100];
-        char a3[100];
-        char a4[100];
-        char a5[100];
+        char a1[255];
+        char a2[255];
+        char a3[255];
+        char a4[255];
+        char a5[255];
         int n = sscanf(line, "%s\t%s\t%s\t%s\t%s", a1, a2, a3, a4, a5);
 
         // set value of weight
-- 
2.43.0


From b94785ae760e52843170a48df1a9190137f0cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 22/39] fix: messages of the SFST parser are cut to the length
 of their buffers

---
 libhfst/src/parsers/SfstAlphabet.cc | 6 +++---
 libhfst/src/parsers/SfstCompiler.cc | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/parsers/SfstAlphabet.cc b/libhfst/src/parsers/SfstAlphabet.cc
index 441b96a..0c45c9d 100644
--- a/libhfst/src/parsers/SfstAlphabet.cc
+++ b/libhfst/src/parsers/SfstAlphabet.cc
@@ -124,7 +124,7 @@ namespace hfst {
 
     if (strlen(symbol) < 60) {
       static char message[100];
-      sprintf(message, "Error: reinserting symbol '%s' in alphabet with incompatible character value %u %u", symbol, (unsigned)sc, (unsigned)c);
+      snprintf(message, sizeof(message), "Error: reinserting symbol '%s' in alphabet with incompatible character value %u %u", symbol, (unsigned)sc, (unsigned)c);
       throw message;
     }
     else
@@ -139,7 +139,7 @@ namespace hfst {
     if (strcmp(s, symbol) != 0) {
       static char message[100];
       if (strlen(symbol) < 70)
-        sprintf(message,"Error: defining symbol %s as character %d (previously defined as %s)", symbol, (unsigned)c, s);
+        snprintf(message, sizeof(message), "Error: defining symbol %s as character %d (previously defined as %s)", symbol, (unsigned)c, s);
       else
         sprintf(message,"Error: defining a (very long) symbol with previously used character");
       throw message;
@@ -264,7 +264,7 @@ namespace hfst {
       c = next_code( string );
       if (c == EOF) {
     static char buffer[1000];
-    sprintf(buffer,"Error: incomplete symbol in input file: %s", string);
+    snprintf(buffer, sizeof(buffer), "Error: incomplete symbol in input file: %s", string);
     throw buffer;
       }
 
diff --git a/libhfst/src/parsers/SfstCompiler.cc b/libhfst/src/parsers/SfstCompiler.cc
index 089322a..9d34650 100644
--- a/libhfst/src/parsers/SfstCompiler.cc
+++ b/libhfst/src/parsers/SfstCompiler.cc
@@ -649,7 +649,7 @@ namespace hfst
     std::ifstream is(filestr.c_str());
     if (!is.is_open()) {
       static char message[1000];
-      sprintf(message,"Error: Cannot open file \"%s\"!", filestr.c_str());
+      snprintf(message, sizeof(message), "Error: Cannot open file \"%s\"!", filestr.c_str());
       throw message;
     }
     free( filename );
-- 
2.43.0


From b60f449c59b3bebfe62e37bd08f966e29ba40557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 23/39] fix: a lookup result of any length fits in its buffer

---
 libhfst/src/c/libhfst_c.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/c/libhfst_c.cpp b/libhfst/src/c/libhfst_c.cpp
index 3dfb655..51999ee 100644
--- a/libhfst/src/c/libhfst_c.cpp
+++ b/libhfst/src/c/libhfst_c.cpp
@@ -108,7 +108,12 @@ extern "C"
         {
             hfst::StringVector sv = it.second;
             // anders: where will this malloc be free()'d?
-            char *result = static_cast<char *>(malloc(sizeof(char) * 256));
+            size_t length = 0;
+            for (auto s : sv)
+            {
+                length += s.length();
+            }
+            char *result = static_cast<char *>(malloc(length + 1));
             result[0] = 0;
             for (auto s : sv)
             {
-- 
2.43.0


From 1d75685b5c0bb94621cd606d4c4b63fe73eaf5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 24/39] fix: a range expression is not read beyond its end

---
 libhfst/src/parsers/pmatch_utils.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/parsers/pmatch_utils.cc b/libhfst/src/parsers/pmatch_utils.cc
index 5d53051..52d4e75 100644
--- a/libhfst/src/parsers/pmatch_utils.cc
+++ b/libhfst/src/parsers/pmatch_utils.cc
@@ -1280,8 +1280,9 @@ parse_range(const char *s)
     {
         unsigned int codepoint1 = 0;
         unsigned int codepoint2 = 0;
-        if (strlen(*c) >= 6 && **c == '\\'
-            && (*(*c + 1) == 'u' || *(*c + 1) == 'U'))
+        if (**c == '\\'
+            && ((*(*c + 1) == 'u' && strlen(*c) >= 6)
+                || (*(*c + 1) == 'U' && strlen(*c) >= 10)))
         {
             // an escape sequence
             char buf[9];
@@ -1310,8 +1311,9 @@ parse_range(const char *s)
             pmatcherror(errstring.c_str());
         }
         *c += 1;
-        if (strlen(*c) >= 6 && **c == '\\'
-            && (*(*c + 1) == 'u' || *(*c + 1) == 'U'))
+        if (**c == '\\'
+            && ((*(*c + 1) == 'u' && strlen(*c) >= 6)
+                || (*(*c + 1) == 'U' && strlen(*c) >= 10)))
         {
             char buf[9];
             if (*(*c + 1) == 'u')
-- 
2.43.0


From 250d6400a096f9e91225da1bf680c5e007be15e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:15 +0000
Subject: [PATCH 25/39] fix: the name of a property fits in its buffer

---
 libhfst/src/parsers/XfstCompiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 52b364a..3278f9e 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -423,7 +423,7 @@ XfstCompiler::xfst_lesser_fail()
 XfstCompiler &
 XfstCompiler::add_prop_line(char *line)
 {
-    char *name = static_cast<char *>(malloc(sizeof(char) * strlen(line)));
+    char *name = static_cast<char *>(malloc(sizeof(char) * (strlen(line) + 1)));
     char *p = line;
     char *n = name;
     while ((*p != '\0') && (*p != ':'))
-- 
2.43.0


From 24f8d3f8bb944bd7ccea8b7c8edaad69337d534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 26/39] fix: escapes in quoted strings are not read beyond the
 end of the string

---
 libhfst/src/parsers/pmatch_utils.cc | 3 ++-
 libhfst/src/parsers/xre_utils.cc    | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/parsers/pmatch_utils.cc b/libhfst/src/parsers/pmatch_utils.cc
index 52d4e75..71c3ecc 100644
--- a/libhfst/src/parsers/pmatch_utils.cc
+++ b/libhfst/src/parsers/pmatch_utils.cc
@@ -13,6 +13,7 @@
  * @brief implements pmatch routines.
  */
 
+#include <algorithm>
 #include <cassert>
 #include <cstdlib>
 #include <cstring>
@@ -1058,7 +1059,7 @@ parse_quoted(const char *s)
                         "parse octal escape in %s",
                         p);
                 *r = '\0';
-                p = p + 5;
+                p = p + std::min(strlen(p), static_cast<size_t>(5));
                 break;
             case 'a':
                 *r = '\a';
diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index aafc469..3b6f1cd 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -13,6 +13,7 @@
  * @brief implements xre routines.
  */
 
+#include <algorithm>
 #include <cassert>
 #include <cstdlib>
 #include <cstring>
@@ -410,7 +411,7 @@ parse_quoted(const char *s, unsigned int &length)
                      << std::string(p);
                 xreflush(err);
                 *r = '\0';
-                p = p + 5;
+                p = p + std::min(strlen(p), static_cast<size_t>(5));
                 break;
             case 'a':
                 *r = '\a';
@@ -448,7 +449,7 @@ parse_quoted(const char *s, unsigned int &length)
                 xreflush(err);
                 *r = '\0';
                 r++;
-                p = p + 6;
+                p = p + std::min(strlen(p), static_cast<size_t>(6));
                 break;
             case 'v':
                 *r = '\v';
-- 
2.43.0


From 87ec74b661dd0a1f2781fec3e85c0b4913c60d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 27/39] fix: the symbols of an input line of any length fit in
 their buffer

---
 tools/src/hfst-optimized-lookup.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-optimized-lookup.cc b/tools/src/hfst-optimized-lookup.cc
index 65e3171..a17a566 100644
--- a/tools/src/hfst-optimized-lookup.cc
+++ b/tools/src/hfst-optimized-lookup.cc
@@ -552,8 +552,9 @@ template <class genericTransducer>
 void
 runTransducer(genericTransducer T)
 {
-    SymbolNumber *input_string = (SymbolNumber *)(malloc(2000));
-    for (int i = 0; i < 1000; ++i)
+    SymbolNumber *input_string
+        = (SymbolNumber *)(malloc(MAX_IO_STRING * sizeof(SymbolNumber)));
+    for (int i = 0; i < MAX_IO_STRING; ++i)
     {
         input_string[i] = NO_SYMBOL_NUMBER;
     }
-- 
2.43.0


From 2f9094f90960718d18f44c4754191f505ce10e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 28/39] fix: HfstBasicTransducer::sort_arcs sorts by symbols

It sorted by target state, so that intersect, which walks the two sorted
lists in parallel, lost transitions whose targets are numbered in another
order than their symbols.
---
 .../src/implementations/HfstBasicTransducer.cc   | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 182e4fc..c4ce21a 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -567,8 +567,20 @@ HfstBasicTransducer::sort_arcs(void)
 {
     for (auto &transitions : state_vector)
     {
-        std::sort<HfstBasicTransitions::iterator>(transitions.begin(),
-                                                  transitions.end());
+        // The order of HfstBasicTransition is by target state.
+        std::sort(transitions.begin(), transitions.end(),
+                  [](const HfstBasicTransition &a,
+                     const HfstBasicTransition &b) {
+                      const HfstTropicalTransducerTransitionData &data_a
+                          = a.get_transition_data();
+                      const HfstTropicalTransducerTransitionData &data_b
+                          = b.get_transition_data();
+                      if (data_a < data_b)
+                          return true;
+                      if (data_b < data_a)
+                          return false;
+                      return a.get_target_state() < b.get_target_state();
+                  });
     }
     return *this;
 }
-- 
2.43.0


From e327ef403c81643920f5eb10f0a67c9bf071c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 29/39] fix: HfstTransducer assignment copies all properties

It copied the name only and kept the other properties of the old
transducer.
---
 libhfst/src/HfstTransducer.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index caf137f..64249d5 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -5970,6 +5970,14 @@ HfstTransducer::operator=(const HfstTransducer &another)
     // set some features
     anonymous = another.anonymous;
     is_trie = another.is_trie;
+    props.clear();
+    for (const auto &prop : another.props)
+    {
+        if (prop.first != "type")
+        {
+            props[prop.first] = prop.second;
+        }
+    }
     this->set_name(another.get_name());
 
     // Delete old transducer.
-- 
2.43.0


From ea023f682cedd402af648fd3fab3c1b4d99b00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 30/39] fix: fst_state_compare is an order

A state with fewer transition indices and a higher number was both less
and greater than one with more indices and a lower number.
---
 libhfst/src/implementations/optimized-lookup/convert.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/implementations/optimized-lookup/convert.cc b/libhfst/src/implementations/optimized-lookup/convert.cc
index 51fbac4..3615d97 100644
--- a/libhfst/src/implementations/optimized-lookup/convert.cc
+++ b/libhfst/src/implementations/optimized-lookup/convert.cc
@@ -663,6 +663,8 @@ struct fst_state_compare
     {
         if (s1->transition_indices.size() < s2->transition_indices.size())
             return true;
+        if (s2->transition_indices.size() < s1->transition_indices.size())
+            return false;
         return s1->id < s2->id;
     }
 };
-- 
2.43.0


From 0dd71c6cab8a2a47fc122fed959bd50579306fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:32 +0000
Subject: [PATCH 31/39] fix: compose net puts the first network back on the
 stack when composition is refused

---
 libhfst/src/parsers/XfstCompiler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 3278f9e..aa200e8 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4437,6 +4437,7 @@ XfstCompiler::apply_binary_operation_iteratively(BinaryOperation operation)
                         << std::endl;
                 flush(&error());
                 xfst_lesser_fail();
+                stack_.push(result);
                 prompt();
                 return *this;
             }
-- 
2.43.0


From b6b96403f7d88913729d0bcfed721b18fc8075be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:28 +0000
Subject: [PATCH 32/39] fix: bytes of a pre-release header with an OpenFst type
 are counted right

---
 libhfst/src/HfstInputStream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstInputStream.cc b/libhfst/src/HfstInputStream.cc
index e262f77..1609764 100644
--- a/libhfst/src/HfstInputStream.cc
+++ b/libhfst/src/HfstInputStream.cc
@@ -775,9 +775,9 @@ namespace hfst
     if (fst_type.compare("FOMA_TYPE") == 0)
       { bytes_read=10; return FOMA_TYPE; }
     if (fst_type.compare("TROPICAL_OPENFST_TYPE") == 0)
-      { bytes_read=19; return TROPICAL_OPENFST_TYPE; }
+      { bytes_read=22; return TROPICAL_OPENFST_TYPE; }
     if (fst_type.compare("LOG_OPENFST_TYPE") == 0)
-      { bytes_read=14; return LOG_OPENFST_TYPE; }
+      { bytes_read=17; return LOG_OPENFST_TYPE; }
     if (fst_type.compare("HFST_OL_TYPE") == 0)
       { bytes_read=13; return HFST_OL_TYPE; }
     if (fst_type.compare("HFST_OLW_TYPE") == 0)
-- 
2.43.0


From f597101d4544a555efe38f299b70c229a5bcf97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:28 +0000
Subject: [PATCH 33/39] fix: a transducer does not get the properties of the
 one before it in the stream

---
 libhfst/src/HfstInputStream.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstInputStream.cc b/libhfst/src/HfstInputStream.cc
index 1609764..26b4b72 100644
--- a/libhfst/src/HfstInputStream.cc
+++ b/libhfst/src/HfstInputStream.cc
@@ -727,6 +727,10 @@ namespace hfst
      Throw a TransducerHeaderException if the header data cannot be parsed. */
   bool HfstInputStream::read_hfst_header(int &bytes_read)
   {
+    // forget the name and properties of the previous transducer
+    name.clear();
+    props.clear();
+
     char c =stream_peek();
 
     if (c != 'H') {
-- 
2.43.0


From 2a4be1c13ec1208bee6c2a71b5b2b50656c6821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 34/39] fix: read AT&T and prolog lines whole, from istreams
 too

---
 .../implementations/HfstBasicTransducer.cc    | 57 ++++++++++---------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index c4ce21a..338a948 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1403,6 +1403,28 @@ HfstBasicTransducer::strip_newlines(std::string &str)
     return str;
 }
 
+// Read the whole of the next line from \a is (if \a file == NULL)
+// or from \a file, without a limit on its length.
+// Return false if there is nothing left to read.
+static bool
+read_line(std::istream &is, FILE *file, std::string &line)
+{
+    line.clear();
+    if (file == NULL)
+    { /* we use streams */
+        return (bool)std::getline(is, line);
+    }
+    /* we use FILEs */
+    char part[255];
+    while (NULL != fgets(part, sizeof(part), file))
+    {
+        line.append(part);
+        if (line[line.length() - 1] == '\n')
+            break;
+    }
+    return !line.empty();
+}
+
 // Try to get a line from \a is (if \a file == NULL)
 // or from \a file. If successfull, strip the line from newlines,
 // increment \a linecount by one and return the line.
@@ -1411,21 +1433,11 @@ std::string
 HfstBasicTransducer::get_stripped_line(std::istream &is, FILE *file,
                                        unsigned int &linecount)
 {
-    char line[255];
-
-    if (file == NULL)
-    { /* we use streams */
-        if (!is.getline(line, 255).eof())
-            HFST_THROW(EndOfStreamException);
-    }
-    else
-    { /* we use FILEs */
-        if (NULL == fgets(line, 255, file))
-            HFST_THROW(EndOfStreamException);
-    }
+    std::string linestr;
+    if (!read_line(is, file, linestr))
+        HFST_THROW(EndOfStreamException);
     linecount++;
 
-    std::string linestr(line);
     return strip_newlines(linestr);
 }
 
@@ -1835,24 +1847,15 @@ HfstBasicTransducer::read_in_att_format(std::istream &is, FILE *file,
     }
 
     HfstBasicTransducer retval;
-    char line[255];
+    std::string linestr;
     while (true)
     {
 
-        if (file == NULL)
-        { /* we use streams */
-            if (!is.getline(line, 255).eof())
-            {
-                break;
-            }
-        }
-        else
-        { /* we use FILEs */
-            if (NULL == fgets(line, 255, file))
-            {
-                break;
-            }
+        if (!read_line(is, file, linestr))
+        {
+            break;
         }
+        char *line = &linestr[0];
 
         linecount++;
 
-- 
2.43.0


From 54fe32802206ed747565705f134c18807530e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 35/39] fix: write AT&T text without weights into a buffer
 without gaps

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 338a948..ffa614b 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1693,8 +1693,10 @@ HfstBasicTransducer::write_in_att_format(char *ptr,
             cwt = cwt + cw;
 
             if (write_weights)
+            {
                 cw = sprintf(ptr + cwt, "\t%f", data.get_weight());
-            cwt = cwt + cw;
+                cwt = cwt + cw;
+            }
             cw = sprintf(ptr + cwt, "\n");
             cwt = cwt + cw;
         }
@@ -1703,9 +1705,11 @@ HfstBasicTransducer::write_in_att_format(char *ptr,
             cw = sprintf(ptr + cwt, "%i", source_state);
             cwt = cwt + cw;
             if (write_weights)
+            {
                 cw = sprintf(ptr + cwt, "\t%f",
                              get_final_weight(source_state));
-            cwt = cwt + cw;
+                cwt = cwt + cw;
+            }
             cw = sprintf(ptr + cwt, "\n");
             cwt = cwt + cw;
         }
-- 
2.43.0


From d582d80716917100d4fad45c4fd64640b29287f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 36/39] fix: write every final state once in numeric AT&T
 format

---
 .../src/implementations/HfstBasicTransducer.cc    | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index ffa614b..1ebe2bc 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1738,14 +1738,13 @@ HfstBasicTransducer::write_in_att_format_number(FILE *file,
             if (write_weights)
                 fprintf(file, "\t%f", data.get_weight());
             fprintf(file, "\n");
-
-            if (is_final_state(source_state))
-            {
-                fprintf(file, "%i", source_state);
-                if (write_weights)
-                    fprintf(file, "\t%f", get_final_weight(source_state));
-                fprintf(file, "\n");
-            }
+        }
+        if (is_final_state(source_state))
+        {
+            fprintf(file, "%i", source_state);
+            if (write_weights)
+                fprintf(file, "\t%f", get_final_weight(source_state));
+            fprintf(file, "\n");
         }
         source_state++;
     }
-- 
2.43.0


From 2e18d11c7ed3370042cd99155eadccc73e955780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 37/39] fix: read prolog symbols that contain spaces or tabs

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 1ebe2bc..3bf9997 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1265,7 +1265,7 @@ HfstBasicTransducer::parse_prolog_arc_line(const std::string &line,
     std::vector<char> targetstr(line.length() + 1);
     std::vector<char> symbolstr(line.length() + 1);
 
-    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\t\n]",
+    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\n]",
                    &namestr[0], &sourcestr[0], &targetstr[0], &symbolstr[0]);
 
     std::string symbol(&symbolstr[0]);
@@ -1367,7 +1367,7 @@ HfstBasicTransducer::parse_prolog_symbol_line(const std::string &line,
     // 'symbol(NAME, "foo").'
     std::vector<char> namearr(line.length() + 1);
     std::vector<char> symbolarr(line.length() + 1);
-    int n = sscanf(line.c_str(), "symbol(%[^,], %s", &namearr[0],
+    int n = sscanf(line.c_str(), "symbol(%[^,], %[^\n]", &namearr[0],
                    &symbolarr[0]);
 
     if (n != 2)
-- 
2.43.0


From 7f6a987889ac8117dd4caff225fed584443ebef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 38/39] fix: a doubled backslash does not escape the quote
 after it in prolog

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 3bf9997..32e193b 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1139,11 +1139,11 @@ HfstBasicTransducer::get_positions_of_unescaped_char(const std::string &str,
     {
         if (str[i] == c)
         {
-            if (i == 0)
-                retval.push_back(i);
-            else if (str[i - 1] == esc)
-                ; // skip escaped chars
-            else
+            // c is escaped if it is preceded by an odd number of escs
+            unsigned int escs = 0;
+            while (escs < i && str[i - 1 - escs] == esc)
+                escs++;
+            if (escs % 2 == 0)
                 retval.push_back(i);
         }
     }
-- 
2.43.0


From b072e27a079dfb89312e2bed7a0c6edbf8cf5473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:55 +0000
Subject: [PATCH 39/39] fix: separate prolog networks by the empty line they
 are read with

---
 tools/src/hfst-fst2txt.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/src/hfst-fst2txt.cc b/tools/src/hfst-fst2txt.cc
index 2608c3f..4f51551 100644
--- a/tools/src/hfst-fst2txt.cc
+++ b/tools/src/hfst-fst2txt.cc
@@ -220,7 +220,10 @@ process_stream(HfstInputStream& instream, FILE* outf)
         }
 
         if(transducer_n > 1)
-            fprintf(outf, "--\n");
+          {
+            // networks in prolog format are separated by an empty line
+            fprintf(outf, format == PROLOG_TEXT ? "\n" : "--\n");
+          }
 
         bool printw; // whether weights are printed
         hfst::ImplementationType type = t->get_type();
-- 
2.43.0

