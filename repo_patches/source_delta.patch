From 47afa73c354c842c609d22a458de49ca828a1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 01/29] fix: detect integer overflow when shifting a negative
 integer left

---
 src/BipsPl/arith_inl_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index fa0101e..3acffd1 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1016,7 +1016,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
     }
   else
     {
-      if (x > (INT_GREATEST_VALUE >> y))
+      if (x > (INT_GREATEST_VALUE >> y) || x < (INT_LOWEST_VALUE >> y))
 	Pl_Err_Evaluation(pl_evaluation_int_overflow);
       z = x << y;
     }
-- 
2.43.0


From cb7a8f1c7654b91e6622038dc7412be6cfc0a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 02/29] fix: pass the culprit of lsb/msb/popcount domain errors
 as a Prolog term

---
 src/BipsPl/arith_inl_c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 3acffd1..3596a05 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1052,7 +1052,7 @@ Pl_Fct_Fast_LSB(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT((x == 0) ? -1 : Pl_Least_Significant_Bit(x));
 }
 
@@ -1061,7 +1061,7 @@ Pl_Fct_Fast_MSB(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT((x == 0) ? -1 : Pl_Most_Significant_Bit(x));
 }
 
@@ -1070,7 +1070,7 @@ Pl_Fct_Fast_Popcount(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT(Pl_Count_Set_Bits(x));
 }
 
-- 
2.43.0


From 3f3fef91cbc7ca647c286d4de93a5760713a8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 03/29] fix: succ/2 reads its second argument dereferenced

---
 src/BipsPl/arith_inl_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 3596a05..18efefb 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -555,7 +555,7 @@ Pl_Succ_2(WamWord x_word, WamWord y_word)
       DEREF(y_word, word, tag_mask);
       if (tag_mask == TAG_INT_MASK)
 	{
-	  y = UnTag_INT(y_word);
+	  y = UnTag_INT(word);
 	  if (y < 0)
 	    Pl_Err_Domain(pl_domain_not_less_than_zero, y_word);
 	}
-- 
2.43.0


From 0fe494e325a55c2c25aa6331e20b0118a439840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 04/29] fix: gcd/2 of the lowest integer with itself overflows

---
 src/BipsPl/arith_inl_c.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 18efefb..28055f4 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1096,10 +1096,6 @@ Pl_Fct_Fast_GCD(WamWord x_word, WamWord y_word)
   PlLong x = UnTag_INT(x_word);
   PlLong y = UnTag_INT(y_word);
 
-  if ((x == INT_LOWEST_VALUE && y == 0) ||
-      (x == 0 && y == INT_LOWEST_VALUE))
-    Pl_Err_Evaluation(pl_evaluation_int_overflow);
-
   if (x < 0)
     x = -x;
 
@@ -1112,6 +1108,8 @@ Pl_Fct_Fast_GCD(WamWord x_word, WamWord y_word)
       x = y;
       y = r;
     }
+  if (TEST_INT_OVERFLOW(x))	/* both operands are INT_LOWEST_VALUE */
+    Pl_Err_Evaluation(pl_evaluation_int_overflow);
   return Tag_INT(x);
 }
 
-- 
2.43.0


From 64fdf80138f7002adeb34f4e1e26300d6a176d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 05/29] fix: shifting a negative integer left by the lowest
 integer gives -1

---
 src/BipsPl/arith_inl_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 28055f4..2c7aba6 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1004,7 +1004,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
   if (y < 0)
     {
       if (y == INT_LOWEST_VALUE)
-	  return Tag_INT(0);
+	  return Tag_INT((x >= 0) ? 0 : -1);
       return Pl_Fct_Fast_Shr(x_word, Tag_INT(-y));
     }
   
-- 
2.43.0


From 058368ab3c4f99006239155d37fe13e7c417f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 06/29] fix: a cut back to a choice point removed by a soft cut
 must not revive it

---
 src/EnginePl/wam_inst.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/EnginePl/wam_inst.c b/src/EnginePl/wam_inst.c
index e54c22d..cf66e0e 100644
--- a/src/EnginePl/wam_inst.c
+++ b/src/EnginePl/wam_inst.c
@@ -1303,7 +1303,12 @@ Pl_Get_Current_Choice(void)
 void FC
 Pl_Cut(WamWord b_word)
 {
-  Assign_B(From_WamWord_To_B(b_word));
+  WamWord *new_B = From_WamWord_To_B(b_word);
+
+  while (ALTB(new_B) == NULL)	/* killed by a soft cut since then: skip it */
+    new_B = BB(new_B);
+
+  Assign_B(new_B);
 }
 
 
@@ -1321,7 +1326,8 @@ Pl_Soft_Cut(WamWord b_word)
   WamWord *cur_B = B;
   WamWord *prev_B;
 
-  /* soft cut: unchain the choice-point pointed by kill_B */
+  /* soft cut: unchain the choice-point pointed by kill_B. A cut level recorded
+   * before can still refer to it: mark it so that Pl_Cut() does not restore it */
 
   if (cur_B == kill_B)
     {
@@ -1336,6 +1342,7 @@ Pl_Soft_Cut(WamWord b_word)
       if (prev_B == kill_B)	/* found */
 	{
 	  BB(cur_B) = BB(kill_B);
+	  ALTB(kill_B) = NULL;
 	  break;
 	}
 
-- 
2.43.0


From 18d421216ad7c9d4c0e58fb78f667ed3d2be3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 07/29] fix: auxiliary predicates of several user directives of
 a file clash at assembly

---
 src/Pl2Wam/syn_sugar.pl  |  6 ++++
 src/Pl2Wam/syn_sugar.wam | 75 ++++++++++++++++++++++------------------
 2 files changed, 47 insertions(+), 34 deletions(-)

diff --git a/src/Pl2Wam/syn_sugar.pl b/src/Pl2Wam/syn_sugar.pl
index f8c3ead..430e0a6 100644
--- a/src/Pl2Wam/syn_sugar.pl
+++ b/src/Pl2Wam/syn_sugar.pl
@@ -45,6 +45,12 @@
 syntactic_sugar_init_pred(Pred, _, _) :-
 	'$aux_name'(Pred), !.
 
+    /* all user directives of a file are compiled as a predicate $exe_user/0:
+     * continue sequentially else their aux predicates would clash.
+     */
+
+syntactic_sugar_init_pred('$exe_user', 0, _) :- !.
+
     /* Caution: the aux predicates stemming from a multifile pred p/n can
      * cause name clashes when compiled to byte-code.
      * These aux pred names are named p/n_$aux<K> where K is a seq number.
diff --git a/src/Pl2Wam/syn_sugar.wam b/src/Pl2Wam/syn_sugar.wam
index b452cfc..ec94ae8 100644
--- a/src/Pl2Wam/syn_sugar.wam
+++ b/src/Pl2Wam/syn_sugar.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: syn_sugar.pl
-% hash: b772e34609c1ef24fe6b025a4d576298d39645c9  syn_sugar.pl
+% hash: 918e38c0366f5ae2ada7d43021ab3a49c28e66d0  syn_sugar.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/syn_sugar.pl').
@@ -18,6 +18,13 @@ predicate(syntactic_sugar_init_pred/3,45,static,private,monofile,global,[
     proceed,
 
 label(1),
+    retry_me_else(2),
+    get_atom('$exe_user',0),
+    get_integer(0,1),
+    cut(x(3)),
+    proceed,
+
+label(2),
     trust_me_else_fail,
     allocate(1),
     put_variable(y(0),3),
@@ -29,7 +36,7 @@ label(1),
     proceed]).
 
 
-predicate('$syntactic_sugar_init_pred/3_$aux1'/4,58,static,private,monofile,local,[
+predicate('$syntactic_sugar_init_pred/3_$aux1'/4,64,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -77,7 +84,7 @@ label(1),
     proceed]).
 
 
-predicate('$syntactic_sugar_init_pred/3_$aux2'/4,58,static,private,monofile,local,[
+predicate('$syntactic_sugar_init_pred/3_$aux2'/4,64,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -99,7 +106,7 @@ label(1),
     proceed]).
 
 
-predicate(syntactic_sugar/3,79,static,private,monofile,global,[
+predicate(syntactic_sugar/3,85,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -121,7 +128,7 @@ predicate(syntactic_sugar/3,79,static,private,monofile,global,[
     execute(normalize_alts/3)]).
 
 
-predicate('$syntactic_sugar/3_$aux1'/3,79,static,private,monofile,local,[
+predicate('$syntactic_sugar/3_$aux1'/3,85,static,private,monofile,local,[
     try_me_else(1),
     get_structure((:-)/2,0),
     unify_local_value(x(1)),
@@ -135,7 +142,7 @@ label(1),
     proceed]).
 
 
-predicate(normalize_cuts/3,154,static,private,monofile,global,[
+predicate(normalize_cuts/3,160,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -155,7 +162,7 @@ predicate(normalize_cuts/3,154,static,private,monofile,global,[
     execute('$normalize_cuts/3_$aux1'/4)]).
 
 
-predicate('$normalize_cuts/3_$aux1'/4,154,static,private,monofile,local,[
+predicate('$normalize_cuts/3_$aux1'/4,160,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -175,7 +182,7 @@ label(1),
     proceed]).
 
 
-predicate(normalize_cuts1/4,165,static,private,monofile,global,[
+predicate(normalize_cuts1/4,171,static,private,monofile,global,[
     try_me_else(1),
     get_variable(x(4),0),
     call_c('Pl_Blt_Var',[fast_call,boolean],[x(4)]),
@@ -426,7 +433,7 @@ label(24),
     execute('$normalize_cuts1/4_$aux5'/2)]).
 
 
-predicate('$normalize_cuts1/4_$aux5'/2,232,static,private,monofile,local,[
+predicate('$normalize_cuts1/4_$aux5'/2,238,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -443,7 +450,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$normalize_cuts1/4_$aux4'/3,212,static,private,monofile,local,[
+predicate('$normalize_cuts1/4_$aux4'/3,218,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -464,7 +471,7 @@ label(1),
     proceed]).
 
 
-predicate('$normalize_cuts1/4_$aux3'/3,198,static,private,monofile,local,[
+predicate('$normalize_cuts1/4_$aux3'/3,204,static,private,monofile,local,[
     try_me_else(1),
     put_atom(optim_fail,3),
     put_atom(t,4),
@@ -492,7 +499,7 @@ label(2),
     proceed]).
 
 
-predicate('$normalize_cuts1/4_$aux2'/10,171,static,private,monofile,local,[
+predicate('$normalize_cuts1/4_$aux2'/10,177,static,private,monofile,local,[
     pragma_arity(11),
     get_current_choice(x(10)),
     try_me_else(1),
@@ -531,7 +538,7 @@ label(1),
     proceed]).
 
 
-predicate('$normalize_cuts1/4_$aux1'/7,171,static,private,monofile,local,[
+predicate('$normalize_cuts1/4_$aux1'/7,177,static,private,monofile,local,[
     switch_on_term(2,fail,fail,fail,1),
 
 label(1),
@@ -584,7 +591,7 @@ label(5),
     proceed]).
 
 
-predicate(normalize_cuts_in_if/2,247,static,private,monofile,global,[
+predicate(normalize_cuts_in_if/2,253,static,private,monofile,global,[
     allocate(4),
     get_variable(y(0),1),
     put_variable(y(1),1),
@@ -599,7 +606,7 @@ predicate(normalize_cuts_in_if/2,247,static,private,monofile,global,[
     execute('$normalize_cuts_in_if/2_$aux1'/4)]).
 
 
-predicate('$normalize_cuts_in_if/2_$aux1'/4,247,static,private,monofile,local,[
+predicate('$normalize_cuts_in_if/2_$aux1'/4,253,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -619,7 +626,7 @@ label(1),
     proceed]).
 
 
-predicate(distrib_module_qualif/3,258,static,private,monofile,global,[
+predicate(distrib_module_qualif/3,264,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(12),
@@ -727,7 +734,7 @@ label(12),
     proceed]).
 
 
-predicate(distrib_module_qualif_goal/3,283,static,private,monofile,global,[
+predicate(distrib_module_qualif_goal/3,289,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -748,7 +755,7 @@ label(1),
     proceed]).
 
 
-predicate(normalize_alts/3,292,static,private,monofile,global,[
+predicate(normalize_alts/3,298,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(1),
@@ -766,7 +773,7 @@ predicate(normalize_alts/3,292,static,private,monofile,global,[
     proceed]).
 
 
-predicate(normalize_alts1/3,299,static,private,monofile,global,[
+predicate(normalize_alts1/3,305,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -861,7 +868,7 @@ label(3),
     proceed]).
 
 
-predicate(init_aux_pred_name/4,326,static,private,monofile,global,[
+predicate(init_aux_pred_name/4,332,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     allocate(5),
@@ -896,7 +903,7 @@ predicate(init_aux_pred_name/4,326,static,private,monofile,global,[
     proceed]).
 
 
-predicate('$init_aux_pred_name/4_$aux1'/4,326,static,private,monofile,local,[
+predicate('$init_aux_pred_name/4_$aux1'/4,332,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),2),
@@ -931,11 +938,11 @@ label(2),
     proceed]).
 
 
-predicate(linearize/4,341,static,private,monofile,global,[
+predicate(linearize/4,347,static,private,monofile,global,[
     execute('$linearize/4_$aux1'/4)]).
 
 
-predicate('$linearize/4_$aux1'/4,341,static,private,monofile,local,[
+predicate('$linearize/4_$aux1'/4,347,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -967,7 +974,7 @@ label(1),
     execute(linearize1/4)]).
 
 
-predicate(linearize1/4,354,static,private,monofile,global,[
+predicate(linearize1/4,360,static,private,monofile,global,[
     get_variable(x(5),1),
     get_variable(x(4),0),
     get_list(3),
@@ -982,7 +989,7 @@ predicate(linearize1/4,354,static,private,monofile,global,[
     execute(copy_term/2)]).
 
 
-predicate(lst_var/3,360,static,private,monofile,global,[
+predicate(lst_var/3,366,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1005,11 +1012,11 @@ label(1),
     execute(lst_var_args/5)]).
 
 
-predicate(lst_var_args/5,370,static,private,monofile,global,[
+predicate(lst_var_args/5,376,static,private,monofile,global,[
     execute('$lst_var_args/5_$aux1'/5)]).
 
 
-predicate('$lst_var_args/5_$aux1'/5,370,static,private,monofile,local,[
+predicate('$lst_var_args/5_$aux1'/5,376,static,private,monofile,local,[
     pragma_arity(6),
     get_current_choice(x(5)),
     try_me_else(1),
@@ -1044,7 +1051,7 @@ label(1),
     proceed]).
 
 
-predicate(pred_rewriting/2,384,static,private,monofile,global,[
+predicate(pred_rewriting/2,390,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(6),
@@ -1319,7 +1326,7 @@ label(21),
     proceed]).
 
 
-predicate('$pred_rewriting/2_$aux2'/1,397,static,private,monofile,local,[
+predicate('$pred_rewriting/2_$aux2'/1,403,static,private,monofile,local,[
     try_me_else(1),
     get_atom(is,0),
     proceed,
@@ -1330,7 +1337,7 @@ label(1),
     execute(math_cmp_functor_name/2)]).
 
 
-predicate('$pred_rewriting/2_$aux1'/3,388,static,private,monofile,local,[
+predicate('$pred_rewriting/2_$aux1'/3,394,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1356,7 +1363,7 @@ label(1),
     proceed]).
 
 
-predicate(test_c_call_allowed/1,458,static,private,monofile,global,[
+predicate(test_c_call_allowed/1,464,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1375,12 +1382,12 @@ label(1),
     execute(error/2)]).
 
 
-predicate(meta_pred_rewriting/2,477,static,private,monofile,global,[
+predicate(meta_pred_rewriting/2,483,static,private,monofile,global,[
     get_value(x(1),0),
     proceed]).
 
 
-predicate(meta_pred_rewrite_args/5,482,static,private,monofile,global,[
+predicate(meta_pred_rewrite_args/5,488,static,private,monofile,global,[
     pragma_arity(6),
     get_current_choice(x(5)),
     try_me_else(1),
@@ -1421,7 +1428,7 @@ label(1),
     proceed]).
 
 
-predicate(meta_pred_rewrite_arg/3,496,static,private,monofile,global,[
+predicate(meta_pred_rewrite_arg/3,502,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
-- 
2.43.0


From 100e7727b1c759c4cda2950910685306c8fe03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 08/29] fix: first-argument indexing on integers outside the
 32-bit range

---
 src/Ma2Asm/ma2asm.c | 2 +-
 src/Wam2Ma/wam2ma.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ma2Asm/ma2asm.c b/src/Ma2Asm/ma2asm.c
index d521b0d..8f3ad07 100644
--- a/src/Ma2Asm/ma2asm.c
+++ b/src/Ma2Asm/ma2asm.c
@@ -727,7 +727,7 @@ Switch_Equal(SwtInf *c)
 int
 Switch_Cmp_Int(SwtInf *c1, SwtInf *c2)
 {
-  return (int) (c1->int_val - c2->int_val);
+  return (c1->int_val > c2->int_val) - (c1->int_val < c2->int_val);
 }
 
 
diff --git a/src/Wam2Ma/wam2ma.c b/src/Wam2Ma/wam2ma.c
index 25adc5c..1e6a8c3 100644
--- a/src/Wam2Ma/wam2ma.c
+++ b/src/Wam2Ma/wam2ma.c
@@ -1432,7 +1432,7 @@ F_switch_on_integer(ArgVal arg[])
   c = '(';
   for(i = 0; i < nb_elem; i++)
     {
-      LOAD_C_INT(n);
+      LOAD_INTEGER(n);
       LOAD_LABEL(l);
       if (i % 5 == 0 && i > 0)
 	{
-- 
2.43.0


From fff0bfd0ec6d11b0bbfa74afc197b005479d00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 09/29] fix: unifying an FD variable with an integer outside
 the 32-bit range

The value was truncated to an int before the solver saw it, so that
fd_domain(X,0,5), X = 4294967297 succeeded with X = 1.
---
 src/EnginePl/if_no_fd.h | 2 +-
 src/EnginePl/unify.c    | 4 ++--
 src/EnginePl/wam_inst.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/EnginePl/if_no_fd.h b/src/EnginePl/if_no_fd.h
index 6e6e7a3..5f28379 100644
--- a/src/EnginePl/if_no_fd.h
+++ b/src/EnginePl/if_no_fd.h
@@ -83,7 +83,7 @@ void Pl_Fd_Init_Solver(void);
 
 void Pl_Fd_Reset_Solver(void);
 
-#define Fd_Unify_With_Integer(f, n) ((*pl_fd_unify_with_integer)(f, n))
+#define Fd_Unify_With_Integer(f, n) ((n) == (int) (n) && (*pl_fd_unify_with_integer)(f, (int) (n)))
 
 #define Fd_Unify_With_Fd_Var(f1, f2)((*pl_fd_unify_with_fd_var)(f1, f2))
 
diff --git a/src/EnginePl/unify.c b/src/EnginePl/unify.c
index f4444be..06d4511 100644
--- a/src/EnginePl/unify.c
+++ b/src/EnginePl/unify.c
@@ -148,14 +148,14 @@ UNIFY_FCT_NAME(WamWord start_u_word, WamWord start_v_word)
 
 #ifndef NO_USE_FD_SOLVER
   if (v_tag_mask == TAG_INT_MASK && u_tag_mask == TAG_FDV_MASK)
-    return Fd_Unify_With_Integer(UnTag_FDV(u_word), (int) UnTag_INT(v_word));
+    return Fd_Unify_With_Integer(UnTag_FDV(u_word), UnTag_INT(v_word));
 
   if (v_tag_mask == TAG_FDV_MASK)
     {
       v_adr = UnTag_FDV(v_word);
 
       if (u_tag_mask == TAG_INT_MASK)
-	return Fd_Unify_With_Integer(v_adr, (int) UnTag_INT(u_word));
+	return Fd_Unify_With_Integer(v_adr, UnTag_INT(u_word));
 
       if (u_tag_mask != v_tag_mask) /* i.e. TAG_FDV_MASK */
 	return FALSE;
diff --git a/src/EnginePl/wam_inst.c b/src/EnginePl/wam_inst.c
index cf66e0e..e5f0110 100644
--- a/src/EnginePl/wam_inst.c
+++ b/src/EnginePl/wam_inst.c
@@ -256,7 +256,7 @@ Pl_Get_Integer_Tagged(WamWord w, WamWord start_word)
 
 #ifndef NO_USE_FD_SOLVER
   if (tag_mask == TAG_FDV_MASK)
-    return Fd_Unify_With_Integer(UnTag_FDV(word), (int) UnTag_INT(w));
+    return Fd_Unify_With_Integer(UnTag_FDV(word), UnTag_INT(w));
 #endif
 
   return (word == w);
@@ -875,7 +875,7 @@ Pl_Unify_Integer_Tagged(WamWord w)
 
 #ifndef NO_USE_FD_SOLVER
       if (tag_mask == TAG_FDV_MASK)
-	return Fd_Unify_With_Integer(UnTag_FDV(word), (int) UnTag_INT(w));
+	return Fd_Unify_With_Integer(UnTag_FDV(word), UnTag_INT(w));
 #endif
 
       return (word == w);
-- 
2.43.0


From 370f99a13041768cd86fb10daa43072d2afa1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 10/29] fix: removing a clause of a predicate already cleared
 by retractall/abolish corrupts the list of erased clauses

---
 src/BipsPl/dynam_supp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index d5412f1..63051f2 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -709,6 +709,10 @@ Pl_Delete_Dynamic_Clause(DynCInf *clause)
 
   MPROBE_PTR("dyn", dyn);
 
+  /* all clauses (and dyn) will be freed (see Erase_All): nothing to do */
+  if (dyn->first_erased_cl == ALL_MUST_BE_ERASED)
+    return;
+
 #if DEBUG_LEVEL >= 1
   Print_Dynamic_Clause("Delete clause", clause);
 #endif
-- 
2.43.0


From 7b5162dbfa2bbb1296436f33bbff81bbd921e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 11/29] fix: findall/bagof/setof return solutions of a nested
 search aborted by an exception

---
 src/BipsPl/all_solut.pl  |  2 +-
 src/BipsPl/all_solut.wam | 24 ++++++++------
 src/BipsPl/all_solut_c.c | 72 +++++++++++++++++++++++++++++++---------
 3 files changed, 71 insertions(+), 27 deletions(-)

diff --git a/src/BipsPl/all_solut.pl b/src/BipsPl/all_solut.pl
index 6ccf423..9f6ae93 100644
--- a/src/BipsPl/all_solut.pl
+++ b/src/BipsPl/all_solut.pl
@@ -103,7 +103,7 @@ bagof(Template, Generator, Instances) :-
 '$store_solutions'(Template, Generator, Stop, BipFunc, BipArity) :-
 	'$call_c'('Pl_Stop_Mark_1'(Stop)),
 	(   '$call'(Generator, BipFunc, BipArity, true),
-	    '$call_c'('Pl_Store_Solution_1'(Template)),
+	    '$call_c'('Pl_Store_Solution_2'(Stop, Template)),
 	    fail
 	;   true
 	).
diff --git a/src/BipsPl/all_solut.wam b/src/BipsPl/all_solut.wam
index a68d0ed..ad8ea32 100644
--- a/src/BipsPl/all_solut.wam
+++ b/src/BipsPl/all_solut.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: all_solut.pl
-% hash: 7d0ee7eaf19ee8e6ecfa0b993f204ab7e8376ae8  all_solut.pl
+% hash: 90241f93b947ac23f491900822afc46c3ba01994  all_solut.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/all_solut.pl').
@@ -179,23 +179,27 @@ label(1),
 
 
 predicate('$store_solutions'/5,103,static,private,monofile,built_in,[
-    get_variable(x(5),3),
-    get_variable(x(3),0),
-    call_c('Pl_Stop_Mark_1',[],[x(2)]),
+    get_variable(x(5),4),
+    get_variable(x(6),3),
+    get_variable(x(3),2),
+    get_variable(x(4),0),
+    call_c('Pl_Stop_Mark_1',[],[x(3)]),
     put_value(x(1),0),
-    put_value(x(5),1),
-    put_value(x(4),2),
-    execute('$$store_solutions/5_$aux1'/4)]).
+    put_value(x(6),1),
+    put_value(x(5),2),
+    execute('$$store_solutions/5_$aux1'/5)]).
 
 
-predicate('$$store_solutions/5_$aux1'/4,103,static,private,monofile,local,[
+predicate('$$store_solutions/5_$aux1'/5,103,static,private,monofile,local,[
     try_me_else(1),
-    allocate(1),
+    allocate(2),
     get_variable(y(0),3),
+    get_variable(y(1),4),
     put_atom(true,3),
     call('$call'/4),
     put_value(y(0),0),
-    call_c('Pl_Store_Solution_1',[],[x(0)]),
+    put_value(y(1),1),
+    call_c('Pl_Store_Solution_2',[],[x(0),x(1)]),
     fail,
 
 label(1),
diff --git a/src/BipsPl/all_solut_c.c b/src/BipsPl/all_solut_c.c
index f8e534e..3ed9cf2 100644
--- a/src/BipsPl/all_solut_c.c
+++ b/src/BipsPl/all_solut_c.c
@@ -63,7 +63,8 @@ typedef struct onesol *OneSolP;
 typedef struct onesol
 {
   OneSolP prev;
-  int sol_no;
+  PlLong mark;			/* mark of the search which stored it */
+  int sol_no;			/* number of this solution in the search */
   int term_size;
   WamWord term_word;
 }
@@ -87,8 +88,9 @@ static WamWord *free_var_base;
 
 
 
-static OneSol dummy = { NULL, 0, 0, NOT_A_WAM_WORD };
+static OneSol dummy = { NULL, 0, 0, 0, NOT_A_WAM_WORD };
 static OneSol *sol = &dummy;
+static PlLong last_mark = 0;
 
 static WamWord *key_var_ptr;
 static WamWord *save_key_var_ptr;
@@ -107,6 +109,10 @@ static WamWord Existential_Variables(WamWord start_word);
 
 static Bool Free_Var(WamWord *adr, WamWord var_word);
 
+static void Pop_Solution(void);
+
+static void Discard_Abandoned_Solutions(PlLong mark);
+
 
 
 static void Handle_Key_Variables(WamWord start_word);
@@ -291,9 +297,11 @@ Free_Var(WamWord *adr, WamWord var_word)
 /*-------------------------------------------------------------------------*
  * This part saves and restores all solutions found. A stack of solutions  *
  * is used (each solution is copied to a Mallocated memory area). To handle*
- * nested findall and al, each solution receive a sequential number. At the*
- * start, the number of the solution on the top of the stack serves as a   *
- * stop mark.                                                              *
+ * nested findall and al, each search receives a mark (an increasing       *
+ * number) recorded in each of its solutions. A search interrupted by an   *
+ * exception leaves its solutions on the stack: they are above those of    *
+ * the searches it is nested in, with a greater mark, and are discarded by *
+ * the next operation of such a search.                                    *
  *                                                                         *
  * Recovering the solutions: a space for the list of (nb_sol) solutions is *
  * reserved on the top of the heap (nb_sol*2 WamWords) then each term is   *
@@ -344,19 +352,50 @@ Free_Var(WamWord *adr, WamWord var_word)
 void
 Pl_Stop_Mark_1(WamWord stop_word)
 {
-  Pl_Get_Integer(sol->sol_no, stop_word);
+  Pl_Get_Integer(++last_mark, stop_word);
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * POP_SOLUTION                                                            *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static void
+Pop_Solution(void)
+{
+  OneSol *s = sol;
+
+  sol = sol->prev;
+  Free(s);
 }
 
 
 
 
 /*-------------------------------------------------------------------------*
- * PL_STORE_SOLUTION_1                                                     *
+ * DISCARD_ABANDONED_SOLUTIONS                                             *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static void
+Discard_Abandoned_Solutions(PlLong mark)
+{
+  while (sol->mark > mark)
+    Pop_Solution();
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * PL_STORE_SOLUTION_2                                                     *
  *                                                                         *
  *-------------------------------------------------------------------------*/
 void
-Pl_Store_Solution_1(WamWord term_word)
+Pl_Store_Solution_2(WamWord stop_word, WamWord term_word)
 {
+  PlLong mark = Pl_Rd_Integer(stop_word);
   OneSol *s;
   int size;
 /* fix_bug is because when gcc sees &xxx where xxx is a fct argument variable
@@ -367,8 +406,11 @@ Pl_Store_Solution_1(WamWord term_word)
   size = Pl_Term_Size(term_word);
 
   s = (OneSol *) Malloc(sizeof(OneSol) - sizeof(WamWord) + size * sizeof(WamWord));
+  Discard_Abandoned_Solutions(mark);
+
   s->prev = sol;
-  s->sol_no = sol->sol_no + 1;
+  s->mark = mark;
+  s->sol_no = (sol->mark == mark) ? sol->sol_no + 1 : 1;
   s->term_size = size;
   fix_bug = term_word;
   Pl_Copy_Term(&s->term_word, &fix_bug);
@@ -386,14 +428,14 @@ Bool
 Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
 		       WamWord list_word, WamWord tail_word)
 {
-  int stop;
+  PlLong mark;
   int nb_sol;
   WamWord *p, *q;
-  OneSol *s;
   Bool handle_key;
 
-  stop = Pl_Rd_C_Int(stop_word);
-  nb_sol = sol->sol_no - stop;
+  mark = Pl_Rd_Integer(stop_word);
+  Discard_Abandoned_Solutions(mark);
+  nb_sol = (sol->mark == mark) ? sol->sol_no : 0;
 
   if (nb_sol == 0)
     return Pl_Unify(list_word, tail_word);
@@ -425,9 +467,7 @@ Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
 	Handle_Key_Variables(*H);
 
       H += sol->term_size;
-      s = sol;
-      sol = sol->prev;
-      Free(s);
+      Pop_Solution();
     }
 
   q[-1] = tail_word;
-- 
2.43.0


From e707f980696bb9e3ef1023b66cd1e1ffcf85fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 12/29] fix: sub_atom/5 with a given sub-atom read outside the
 atom when Before or After is too large

---
 src/BipsPl/atom_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/atom_c.c b/src/BipsPl/atom_c.c
index 7f53c1e..234c1c1 100644
--- a/src/BipsPl/atom_c.c
+++ b/src/BipsPl/atom_c.c
@@ -363,14 +363,14 @@ Pl_Sub_Atom_5(WamWord atom_word, WamWord before_word, WamWord length_word,
       if (mask & 4)		/* B fixed */
 	{
 	  a = length - b - l;
-	  return strncmp(patom->name + b, psub_atom->name, l) == 0 &&
+	  return a >= 0 && strncmp(patom->name + b, psub_atom->name, l) == 0 &&
 	    Pl_Get_Integer(a, after_word);
 	}
 
       if (mask & 1)		/* A fixed */
 	{
 	  b = length - l - a;
-	  return strncmp(patom->name + b, psub_atom->name, l) == 0 &&
+	  return b >= 0 && strncmp(patom->name + b, psub_atom->name, l) == 0 &&
 	    Pl_Get_Integer(b, before_word);
 	}
       mask = 8;			/* set sub_atom as fixed */
-- 
2.43.0


From e99ece26d993d52d1b9c44ca59799fb7f23a5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 13/29] fix: sub_atom/5 ignored failed unifications when the
 length and another argument are the same variable

---
 src/BipsPl/atom_c.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/atom_c.c b/src/BipsPl/atom_c.c
index 234c1c1..e96ec7f 100644
--- a/src/BipsPl/atom_c.c
+++ b/src/BipsPl/atom_c.c
@@ -441,8 +441,9 @@ Pl_Sub_Atom_5(WamWord atom_word, WamWord before_word, WamWord length_word,
       MALLOC_STR(l);
       strncpy(str, patom->name + b, l);
       str[l] = '\0';
-      Pl_Get_Atom(Create_Malloc_Atom(str), sub_atom_word);
-      Pl_Get_Integer(l, length_word);
+      if (!Pl_Get_Atom(Create_Malloc_Atom(str), sub_atom_word) ||
+	  !Pl_Get_Integer(l, length_word))
+	return FALSE;
     }
 
   return Pl_Get_Integer(b, before_word) && Pl_Get_Integer(a, after_word);
@@ -503,8 +504,9 @@ Pl_Sub_Atom_Alt_0(void)
       MALLOC_STR(l);
       strncpy(str, patom->name + b, l);
       str[l] = '\0';
-      Pl_Get_Atom(Create_Malloc_Atom(str), sub_atom_word);
-      Pl_Get_Integer(l, length_word);
+      if (!Pl_Get_Atom(Create_Malloc_Atom(str), sub_atom_word) ||
+	  !Pl_Get_Integer(l, length_word))
+	return FALSE;
     }
 
   return Pl_Get_Integer(b, before_word) && Pl_Get_Integer(a, after_word);
-- 
2.43.0


From dc1881ce5b5e98c9f93483b7b4a19309a366c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:37 +0000
Subject: [PATCH 14/29] fix: overflow in a \x..\ or octal escape sequence
 accepted an invalid character code

---
 src/BipsPl/lexer_supp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/lexer_supp.c b/src/BipsPl/lexer_supp.c
index 540e338..f07b7b1 100644
--- a/src/BipsPl/lexer_supp.c
+++ b/src/BipsPl/lexer_supp.c
@@ -706,7 +706,8 @@ Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape)
 	  i = (int) (p - f);
 	  if (i >= 16)
 	    i -= 6;
-	  x = x * radix + i;
+	  if (Is_Valid_Code(x) || x == 0) /* else keep an invalid code (avoid overflow) */
+	    x = x * radix + i;
 	  Read_Next_Char(pstm, convert);
 	}
 
-- 
2.43.0


From 1b31710cd082dd361c0177ead5e52fa809b485d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:37 +0000
Subject: [PATCH 15/29] fix: the length of atoms longer than 65535 characters
 was truncated (wrong lengths, heap overflow in atom_concat/3)

---
 src/EnginePl/atom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EnginePl/atom.h b/src/EnginePl/atom.h
index 9d8235c..e8a1ed1 100644
--- a/src/EnginePl/atom.h
+++ b/src/EnginePl/atom.h
@@ -96,7 +96,7 @@
 
 typedef struct			/* Atom properties                */
 {				/* ------------------------------ */
-  unsigned length:16;		/* its length (in characters)     */
+  unsigned length;		/* its length (in characters)     */
   unsigned op_mask:4;		/* operator defined for the atom  */
   unsigned type:2;		/* IDENTIFIER GRAPHIC SOLO OTHER  */
   unsigned needs_quote:1;	/* needs ' around it ?            */
-- 
2.43.0


From 3fcae701040e29707720cdeaf7477eb52631d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 16/29] fix: character count and line position are wrong after
 reading the end of file (or a term that ends there)

---
 src/BipsPl/lexer_supp.c  | 3 ++-
 src/BipsPl/stream_supp.c | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/lexer_supp.c b/src/BipsPl/lexer_supp.c
index f07b7b1..0bf758f 100644
--- a/src/BipsPl/lexer_supp.c
+++ b/src/BipsPl/lexer_supp.c
@@ -177,6 +177,7 @@ start_scan:
   if (c == EOF)
     {
       pl_token.type = TOKEN_END_OF_FILE;
+      pl_token.col++;		/* EOF is not counted */
       return err_msg;
     }
 
@@ -235,7 +236,7 @@ start_scan:
 	    {
 	      pl_token.type = TOKEN_END_OF_FILE;
 	      pl_token.line = pstm->line_count + 1;
-	      pl_token.col = pstm->line_pos;
+	      pl_token.col = pstm->line_pos + 1;
 	      err_msg = "*/ expected here for /*...*/ comment";
 	      break;
 	    }
diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 9d062bf..d9a98a1 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1261,7 +1261,7 @@ TTY_Clearerr(void *unused)
       pstm->line_count++;   			\
       pstm->line_pos = 0;     			\
     }                      			\
-  else                     			\
+  else if (c != EOF)       			\
     pstm->line_pos++
 
 
@@ -1439,6 +1439,9 @@ Pl_Stream_Ungetc(int c, StmInf *pstm)
   PB_Push(pstm->pb_char, c);
   pstm->eof_reached = FALSE;
 
+  if (c == EOF)			/* not counted when read */
+    return;
+
   if (pstm->char_count > 0)	/* test should be useless */
     pstm->char_count--;
 
-- 
2.43.0


From 37a078a758e226671dc2ab53137c389f0ca6abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 17/29] fix: stream_position/2 is one character too small when
 the end of file has been peeked

---
 src/BipsPl/stream_supp.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index d9a98a1..19b72c1 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1679,6 +1679,31 @@ Pl_Stream_End_Of_Stream(StmInf *pstm)
 
 
 
+/*-------------------------------------------------------------------------*
+ * PB_NB_OF_CHARS                                                          *
+ *                                                                         *
+ * Number of characters in the push back buffer (a peeked EOF is not one). *
+ *-------------------------------------------------------------------------*/
+static int
+PB_Nb_Of_Chars(StmInf *pstm)
+{
+  int nb = 0, i;
+  PlLong *p = pstm->pb_char.ptr;
+
+  for (i = pstm->pb_char.nb_elems; i > 0; i--)
+    {
+      if (p == pstm->pb_char.buff)
+	p = pstm->pb_char.buff + STREAM_PB_SIZE;
+      if (*--p != EOF)
+	nb++;
+    }
+
+  return nb;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_STREAM_GET_POSITION                                                  *
  *                                                                         *
@@ -1694,7 +1719,7 @@ Pl_Stream_Get_Position(StmInf *pstm, PlLong *offset, PlLong *char_count,
 	*offset = 0;
       else
 	{
-	  *offset = *offset - pstm->pb_char.nb_elems;
+	  *offset = *offset - PB_Nb_Of_Chars(pstm);
 	  if (*offset < 0)
 	    *offset = 0;
 	}
-- 
2.43.0


From 507bcb1397ca72970588112b815a2c80540a1154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 18/29] fix: seek/4 relative to the current position ignored
 peeked bytes

---
 src/BipsPl/stream_supp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 19b72c1..b3c214f 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -150,6 +150,8 @@ static void TTY_Clearerr(void *unused);
 
 static int Basic_Call_Fct_Getc(StmInf *pstm);
 
+static int PB_Nb_Of_Chars(StmInf *pstm);
+
 static void Basic_Call_Fct_Putc(int c, StmInf *pstm);
 
 /* declare a void * to make the clang sanitizer OK with fct ptr exact type */
@@ -1750,7 +1752,12 @@ int
 Pl_Stream_Set_Position(StmInf *pstm, int whence, PlLong offset, PlLong char_count,
 		       PlLong line_count, PlLong line_pos)
 {
-  int x = CALL_SEEK(pstm, (long) offset, whence);
+  int x;
+
+  if (whence == SEEK_CUR)	/* peeked characters are not read yet */
+    offset -= PB_Nb_Of_Chars(pstm);
+
+  x = CALL_SEEK(pstm, (long) offset, whence);
   if (x != 0)
     return x;
 
-- 
2.43.0


From 7354cbc5d525198520d974bc9819008a8927bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 19/29] fix: fd_element/3 writes outside the bit vector for a
 negative or large element

---
 src/BipsFD/fd_symbolic_c.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/BipsFD/fd_symbolic_c.c b/src/BipsFD/fd_symbolic_c.c
index e54c524..ec3f0be 100644
--- a/src/BipsFD/fd_symbolic_c.c
+++ b/src/BipsFD/fd_symbolic_c.c
@@ -163,6 +163,21 @@ Pl_Fd_Element_I(Range *i, WamWord *l)
 
 
 
+/* ignore values outside the vector */
+
+#define Element_Add_Value(v, val)					\
+  do									\
+    {									\
+      if ((val) > pl_vec_max_integer)					\
+	(v)->extra_cstr = TRUE;						\
+      else if ((val) >= 0)						\
+	Vector_Set_Value((v)->vec, val);				\
+    }									\
+  while (0)
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_FD_ELEMENT_I_TO_V                                                    *
  *                                                                         *
@@ -175,6 +190,7 @@ Pl_Fd_Element_I_To_V(Range *v, Range *i, WamWord *l)
 
   /* when I changes -> update V */
 
+  v->extra_cstr = FALSE;
   Vector_Allocate(v->vec);
   Pl_Vector_Empty(v->vec);
 
@@ -183,7 +199,7 @@ Pl_Fd_Element_I_To_V(Range *v, Range *i, WamWord *l)
       for (j = i->min; j <= i->max; j++)
 	{
 	  val = (int) (l[j]);
-	  Vector_Set_Value(v->vec, val);
+	  Element_Add_Value(v, val);
 	}
     }
   else
@@ -191,7 +207,7 @@ Pl_Fd_Element_I_To_V(Range *v, Range *i, WamWord *l)
       VECTOR_BEGIN_ENUM(i->vec, j);
 
       val = (int) (l[j]);
-      Vector_Set_Value(v->vec, val);
+      Element_Add_Value(v, val);
 
       VECTOR_END_ENUM;
     }
-- 
2.43.0


From d9899f87db5b7f3315c457f3f861e2cf668f0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 20/29] fix: FD constraints truncate integers to 32 bits

---
 src/BipsFD/fd_bool_c.c | 4 ++--
 src/EngineFD/fd_inst.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BipsFD/fd_bool_c.c b/src/BipsFD/fd_bool_c.c
index 9f3a412..8e9231b 100644
--- a/src/BipsFD/fd_bool_c.c
+++ b/src/BipsFD/fd_bool_c.c
@@ -408,9 +408,9 @@ Simplify(int sign, WamWord e_word)
 
   if (tag_mask == TAG_INT_MASK)
     {
-      n = (int) UnTag_INT(word);
-      if ((unsigned) n > 1)
+      if ((PlULong) UnTag_INT(word) > 1)
 	goto type_error;
+      n = (int) UnTag_INT(word);
 
       *sp++ = ZERO + ((sign == 1) ? n : 1 - n);
       return exp;
diff --git a/src/EngineFD/fd_inst.c b/src/EngineFD/fd_inst.c
index 0928f44..0352ddb 100644
--- a/src/EngineFD/fd_inst.c
+++ b/src/EngineFD/fd_inst.c
@@ -459,7 +459,7 @@ Pl_Fd_Prolog_To_Fd_Var(WamWord arg_word, Bool pl_var_ok)
     }
 
   if (tag_mask == TAG_INT_MASK)
-    return Pl_Fd_New_Int_Variable((int) UnTag_INT(word));
+    return Pl_Fd_New_Int_Variable(Pl_Fd_Prolog_To_Value(word));
 
   if (tag_mask != TAG_FDV_MASK)
     Pl_Err_Type(pl_type_fd_variable, word);
@@ -616,7 +616,7 @@ Pl_Fd_Prolog_To_Array_Int(WamWord list_word)
 	Pl_Err_Type(pl_type_integer, word);
 
 
-      val = UnTag_INT(word);
+      val = Pl_Fd_Prolog_To_Value(word);
 
       *array++ = val;
       n++;
-- 
2.43.0


From a87d006925d0ec4da92b8a8473195fe2e2e82ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 21/29] fix: g_assignb/2 of an array over an array and
 g_array_extend with a smaller size write outside the array

---
 src/BipsPl/g_var_inl_c.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 90c40c2..baa4c68 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -693,13 +693,16 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
   if (array_op == G_ARRAY_EXTEND && g_elem->size >= 0)
     array_op = G_ARRAY;
 
-  if (array_op != G_ARRAY_EXTEND && !backtrack)
+  if (array_op != G_ARRAY_EXTEND)
     {
-      G_Free_Element(g_elem, TRUE);
-      g_elem->size = 0;
+      if (!backtrack)
+	G_Free_Element(g_elem, TRUE);
+      g_elem->size = 0;		/* the old value is saved by the caller */
     }
 
   size = -g_elem->size;
+  if (size > new_size)
+    size = new_size;
 
   p = G_Alloc_Array(g_elem, new_size, backtrack);
 
@@ -773,6 +776,14 @@ G_Alloc_Array(GVarElt *g_elem, PlLong new_size, Bool backtrack)
   old_size = -g_elem->size;
   src = (GVarElt *) g_elem->val;
 
+  if (old_size > new_size && !backtrack)	/* less elements than before */
+    {
+      for (i = new_size; i < old_size; i++)
+	G_Free_Element(src + i, TRUE);
+      src[new_size] = src[old_size];	/* last elem */
+      old_size = new_size;
+    }
+
   if (old_size <= 0 || backtrack)
     p = (GVarElt *) Malloc((new_size + 1) * sizeof(GVarElt));
   else
@@ -791,9 +802,10 @@ G_Alloc_Array(GVarElt *g_elem, PlLong new_size, Bool backtrack)
   if (backtrack)
     {
       dst = p;
-      for (i = 0; i < old_size; i++)
-	G_Copy_Element(dst++, src++);
+      for (i = 0; i < old_size && i < new_size; i++)
+	G_Copy_Element(dst++, src + i);
 
+      src += old_size;
 				/* copy last elem */
       if (src->size != G_IMPOSSIBLE_SIZE)
 	G_Copy_Element(p_new_end, src);
-- 
2.43.0


From 985be0d21443638833faad971d6291956343899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 22/29] fix: an invalid nested array definition left a global
 variable with uninitialized elements

---
 src/BipsPl/g_var_inl_c.c | 62 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 5 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index baa4c68..e4292f8 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -58,6 +58,10 @@
 #define G_IMPOSSIBLE_SIZE          ((unsigned int) -1 >> 1)
 #define MAX_AUTO_SIZE              (1 << 20)
 
+#define Is_Array_Functor(adr)      (Functor(adr) == atom_g_array ||		\
+				    Functor(adr) == atom_g_array_auto ||	\
+				    Functor(adr) == atom_g_array_extend)
+
 
 
 /*---------------------------------*
@@ -122,6 +126,8 @@ static void G_Assign_Element(GVarElt *g_elem, WamWord gval_word,
 
 static void G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word);
 
+static PlLong G_Check_Array(WamWord *stc_adr);
+
 static void G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 			   Bool backtrack, Bool copy);
 
@@ -654,6 +660,55 @@ G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word)
 
 
 
+/*-------------------------------------------------------------------------*
+ * G_CHECK_ARRAY                                                           *
+ *                                                                         *
+ * Check an array definition (and the array definitions it contains) before*
+ * anything is modified. Return the size of the array.                     *
+ *-------------------------------------------------------------------------*/
+static PlLong
+G_Check_Array(WamWord *stc_adr)
+{
+  WamWord word, tag_mask;
+  WamWord sub_word, sub_tag_mask;
+  WamWord *adr;
+  int arity;
+  PlLong size;
+
+  arity = Arity(stc_adr);
+
+  DEREF(Arg(stc_adr, 0), word, tag_mask);
+  size = (tag_mask == TAG_LST_MASK) ? Pl_List_Length(word) : UnTag_INT(word);
+
+  if (!(size > 0 && ((tag_mask == TAG_INT_MASK && arity <= 2) ||
+		     (tag_mask == TAG_LST_MASK && arity == 1))))
+    Pl_Err_Domain(pl_domain_g_array_index, Tag_STC(stc_adr));
+
+  if (tag_mask == TAG_INT_MASK)
+    {
+      if (arity == 2)
+	{
+	  DEREF(Arg(stc_adr, 1), sub_word, sub_tag_mask);
+	  if (sub_tag_mask == TAG_STC_MASK && Is_Array_Functor(UnTag_STC(sub_word)))
+	    G_Check_Array(UnTag_STC(sub_word));
+	}
+    }
+  else
+    while (tag_mask == TAG_LST_MASK)
+      {
+	adr = UnTag_LST(word);
+	DEREF(Car(adr), sub_word, sub_tag_mask);
+	if (sub_tag_mask == TAG_STC_MASK && Is_Array_Functor(UnTag_STC(sub_word)))
+	  G_Check_Array(UnTag_STC(sub_word));
+	DEREF(Cdr(adr), word, tag_mask);
+      }
+
+  return size;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * G_ASSIGN_ARRAY                                                          *
  *                                                                         *
@@ -672,12 +727,9 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 
   arity = Arity(stc_adr);
 
-  DEREF(Arg(stc_adr, 0), word, tag_mask);
-  new_size = (tag_mask == TAG_LST_MASK) ? Pl_List_Length(word) : UnTag_INT(word);
+  new_size = G_Check_Array(stc_adr);
 
-  if (!(new_size > 0 && ((tag_mask == TAG_INT_MASK && arity <= 2) ||
-			 (tag_mask == TAG_LST_MASK && arity == 1))))
-    Pl_Err_Domain(pl_domain_g_array_index, Tag_STC(stc_adr));
+  DEREF(Arg(stc_adr, 0), word, tag_mask);
 
   if (tag_mask == TAG_INT_MASK)
     {
-- 
2.43.0


From 5d3ff8c77e6a79fd95e22d073508cd11c8485d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 23/29] fix: g_assign/2 of a compound term to an argument of a
 linked term crashes

---
 src/BipsPl/g_var_inl_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index e4292f8..7c39c7f 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -643,7 +643,7 @@ G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word)
 				/* similar to g_read + g_assign */
 
   *g_arg = word;		/* set the argument */
-  Pl_Copy_Term(H, (WamWord *) g_elem->val);
+  Pl_Copy_Term(H, (g_elem->size == 0) ? &g_elem->val : (WamWord *) g_elem->val);
 
   G_Free_Element(g_elem, TRUE);
 
-- 
2.43.0


From 98fd949ce2272a3fda44349eb962e7c56903bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 24/29] fix: a global variable linked to a variable bound to an
 integer was not accepted as an integer

---
 src/BipsPl/g_var_inl_c.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 7c39c7f..1de31f5 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -139,7 +139,7 @@ static GTarget *Get_Target_From_Selector(WamWord *stc_adr);
 
 static WamWord *Get_Term_Addr_From_Target(GTarget *gt);
 
-static WamWord *Get_Int_Addr_From_Gvar(WamWord gvar_word);
+static WamWord *Get_Int_Addr_From_Gvar(WamWord gvar_word, Bool update);
 
 static PlLong Get_Int_From_Gvar(WamWord gvar_word);
 
@@ -935,7 +935,7 @@ Get_Target_From_Gvar(WamWord gvar_word)
       DEREF(word1, word, tag_mask);
 
       if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-	word = *Get_Int_Addr_From_Gvar(word);
+	word = *Get_Int_Addr_From_Gvar(word, FALSE);
 
       index = UnTag_INT(word);
 
@@ -1062,21 +1062,35 @@ Get_Term_Addr_From_Target(GTarget *gt)
  *                                                                         *
  *-------------------------------------------------------------------------*/
 static WamWord *
-Get_Int_Addr_From_Gvar(WamWord gvar_word)
+Get_Int_Addr_From_Gvar(WamWord gvar_word, Bool update)
 {
+  static WamWord value;
+  WamWord word, tag_mask;
   GTarget save_g_target = g_target; /* save for cross-recursion */
   GTarget *gt = Get_Target_From_Gvar(gvar_word);
   WamWord *adr = Get_Term_Addr_From_Target(gt);
 
   g_target = save_g_target;
-				/* should be dereferenced */
 
   if (adr == NULL)		/* an array */
     Pl_Err_Type(pl_type_integer, Tag_ATM(atom_g_array));
 
-  if (Tag_Mask_Of(*adr) != TAG_INT_MASK)
+  DEREF(*adr, word, tag_mask);
+
+  if (tag_mask != TAG_INT_MASK)
      Pl_Err_Type(pl_type_integer, *adr);
 
+  if (*adr != word)		/* a link to a variable bound to an integer */
+    {
+      if (update)
+	*adr = word;
+      else
+	{
+	  value = word;
+	  adr = &value;
+	}
+    }
+
   return adr;
 }
 
@@ -1090,7 +1104,7 @@ Get_Int_Addr_From_Gvar(WamWord gvar_word)
 static PlLong
 Get_Int_From_Gvar(WamWord gvar_word)
 {
-  return *Get_Int_Addr_From_Gvar(gvar_word);
+  return *Get_Int_Addr_From_Gvar(gvar_word, FALSE);
 }
 
 
@@ -1108,7 +1122,7 @@ Get_Int_From_Word(WamWord start_word)
   DEREF(start_word, word, tag_mask);
 
   if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-    word = *Get_Int_Addr_From_Gvar(word);
+    word = *Get_Int_Addr_From_Gvar(word, FALSE);
 
   return UnTag_INT(word);
 }
@@ -1387,7 +1401,7 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
     Pl_Check_For_Un_Integer(new_word);
 
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word);
+  adr = Get_Int_Addr_From_Gvar(gvar_word, TRUE);
 
   old = UnTag_INT(*adr);
   new = old + inc;
@@ -1417,7 +1431,7 @@ G_Set_Bit(WamWord gvar_word, WamWord bit_word)
   int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
   PlULong mask;
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word);
+  adr = Get_Int_Addr_From_Gvar(gvar_word, TRUE);
   mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
   *adr |= mask;
 }
@@ -1436,7 +1450,7 @@ G_Reset_Bit(WamWord gvar_word, WamWord bit_word)
   int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
   PlULong mask;
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word);
+  adr = Get_Int_Addr_From_Gvar(gvar_word, TRUE);
   mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
   *adr &= ~mask;
 }
-- 
2.43.0


From c9677cc073eaa895f90868f69944fff81d954686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 25/29] fix: g_inc and g_dec wrap around at the bounds of
 integers

---
 src/BipsPl/g_var_inl_c.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 1de31f5..50c04d8 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -1409,6 +1409,9 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
   if (old_word != NOT_A_WAM_WORD && !Pl_Get_Integer(old, old_word))
     return FALSE;
 
+  if (TEST_INT_OVERFLOW(new))
+    Pl_Err_Evaluation(pl_evaluation_int_overflow);
+
   *adr = Tag_INT(new);		/* increment now - cf specif in doc */
 
   if (new_word != NOT_A_WAM_WORD && !Pl_Get_Integer(new, new_word))
-- 
2.43.0


From c8514538d98572e4f89af55b2965e63c5a94acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 26/29] fix: an indirect index that expands the array it
 indexes left a dangling reference

---
 src/BipsPl/g_var_inl_c.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 50c04d8..51c3420 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -893,11 +893,10 @@ G_Alloc_Array(GVarElt *g_elem, PlLong new_size, Bool backtrack)
 static GTarget *
 Get_Target_From_Gvar(WamWord gvar_word)
 {
-  WamWord word, tag_mask;
-  WamWord word1;
   int atom;
   int arity;
   WamWord *arg_adr;
+  PlLong index_tbl[MAX_ARITY];
   GVarElt *g_elem, *g_end;
   GVarElt *p;
   PlLong i, j, size;
@@ -927,17 +926,15 @@ Get_Target_From_Gvar(WamWord gvar_word)
       Pl_Err_Domain(pl_domain_g_array_index, gvar_word);
     }
 
+				/* before: an indirect index can expand the array */
+  for (i = 0; i < arity; i++)
+    index_tbl[i] = Get_Int_From_Word(*arg_adr++);
+
   for (i = 0; i < arity; i++)
     {
       size = g_elem->size;
 
-      word1 = *arg_adr;
-      DEREF(word1, word, tag_mask);
-
-      if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-	word = *Get_Int_Addr_From_Gvar(word, FALSE);
-
-      index = UnTag_INT(word);
+      index = index_tbl[i];
 
       if (size >= 0 || index < 0)
 	goto error;
@@ -966,7 +963,6 @@ Get_Target_From_Gvar(WamWord gvar_word)
 	}
 
       g_elem = (GVarElt *) (g_elem->val) + index;
-      arg_adr++;
     }
 
   gt->g_elem = g_elem;
@@ -989,8 +985,8 @@ Get_Target_From_Selector(WamWord *stc_adr)
   PlLong arg_no;
   GTarget *gt;
 
-  gt = Get_Target_From_Gvar(Arg(stc_adr, 0));
   arg_no = Get_Int_From_Word(Arg(stc_adr, 1));
+  gt = Get_Target_From_Gvar(Arg(stc_adr, 0));
   adr = Get_Term_Addr_From_Target(gt);
   if (adr == NULL)		/* an array */
     goto error;
-- 
2.43.0


From c4c19712a99ecb866b17bc8b384df433ae3ddf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 27/29] fix: the type error of g_inc and co refers to a term
 outside the stacks

---
 src/BipsPl/g_var_inl_c.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 51c3420..dcfeb83 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -1074,7 +1074,12 @@ Get_Int_Addr_From_Gvar(WamWord gvar_word, Bool update)
   DEREF(*adr, word, tag_mask);
 
   if (tag_mask != TAG_INT_MASK)
-     Pl_Err_Type(pl_type_integer, *adr);
+    {				/* the stored term can be outside the stacks: copy it */
+      Pl_Copy_Term(H, adr);
+      word = *H;
+      H += Pl_Term_Size(word);
+      Pl_Err_Type(pl_type_integer, word);
+    }
 
   if (*adr != word)		/* a link to a variable bound to an integer */
     {
-- 
2.43.0


From 4a5c7fea1306620d15f4b913953fa7c5a46c6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 28/29] fix: g_assign/2 to an argument that is a variable
 changes its other occurrences

---
 src/BipsPl/g_var_inl_c.c | 51 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index dcfeb83..0630835 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -124,6 +124,8 @@ static void G_Assign(WamWord gvar_word, WamWord gval_word, Bool backtrack,
 static void G_Assign_Element(GVarElt *g_elem, WamWord gval_word,
 			     Bool backtrack, Bool copy);
 
+static void G_Move_Var(WamWord *adr, WamWord *var_adr, WamWord **home);
+
 static void G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word);
 
 static PlLong G_Check_Array(WamWord *stc_adr);
@@ -618,6 +620,50 @@ G_Assign_Element(GVarElt *g_elem, WamWord gval_word, Bool backtrack, Bool copy)
 
 
 
+/*-------------------------------------------------------------------------*
+ * G_MOVE_VAR                                                              *
+ *                                                                         *
+ * The cell var_adr of a copied term is an unbound variable which will be  *
+ * overwritten: its other occurrences are linked to another cell.          *
+ *-------------------------------------------------------------------------*/
+static void
+G_Move_Var(WamWord *adr, WamWord *var_adr, WamWord **home)
+{
+  WamWord word;
+  int i;
+
+ terminal_rec:
+  word = *adr;
+
+  switch (Tag_From_Tag_Mask(Tag_Mask_Of(word)))
+    {
+    case REF:
+      if (adr != var_adr && UnTag_REF(word) == var_adr)
+	{
+	  if (*home == NULL)
+	    *home = adr;
+	  *adr = Tag_REF(*home);
+	}
+      break;
+
+    case LST:
+      adr = UnTag_LST(word);
+      G_Move_Var(&Car(adr), var_adr, home);
+      adr = &Cdr(adr);
+      goto terminal_rec;
+
+    case STC:
+      adr = UnTag_STC(word);
+      for (i = 0; i < Arity(adr) - 1; i++)
+	G_Move_Var(&Arg(adr, i), var_adr, home);
+      adr = &Arg(adr, i);
+      goto terminal_rec;
+    }
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * G_ASSIGN_ARG                                                            *
  *                                                                         *
@@ -628,6 +674,11 @@ G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word)
   WamWord *adr;
   PlLong size;
   GUndo *u;
+  WamWord *home = NULL;
+
+				/* a variable which also occurs elsewhere */
+  if (g_elem->size > 0 && *g_arg == Make_Self_Ref(g_arg))
+    G_Move_Var((WamWord *) g_elem->val, g_arg, &home);
 
   if (Pl_Term_Size(*g_arg) == 1 && Pl_Term_Size(word) == 1)
     {
-- 
2.43.0


From 936c5ac13735d25e944b4491aa69b9636f16aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:25 +0000
Subject: [PATCH 29/29] fix: ([] -> [] ; B) in a grammar rule also tries B

---
 src/BipsPl/expand_c.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/expand_c.c b/src/BipsPl/expand_c.c
index 29a771f..3493676 100644
--- a/src/BipsPl/expand_c.c
+++ b/src/BipsPl/expand_c.c
@@ -404,7 +404,20 @@ Dcg_Body_On_Stack(WamWord dcg_body_word, Bool opt_equal_between_in_out_vars,
 
   if (arity == 2 && (func == ATOM_CHAR(';') || func == ATOM_CHAR('|')))
     {
-      w1 = Dcg_Body(*adr++, TRUE, in_word, out_word, NULL);
+      DEREF(*adr, word, tag_mask);
+      if (tag_mask == TAG_STC_MASK && Arity(UnTag_STC(word)) == 2 &&
+	  (Functor(UnTag_STC(word)) == atom_if || Functor(UnTag_STC(word)) == atom_soft_if))
+	{			/* the alternative must remain an if-then(-else) */
+	  func = Functor(UnTag_STC(word));
+	  p = &Arg(UnTag_STC(word), 0);
+	  word = Pl_Mk_Variable();
+	  w1 = Dcg_Body(*p++, FALSE, in_word, word, NULL);
+	  w2 = Dcg_Body(*p, TRUE, word, out_word, NULL);
+	  w1 = Dcg_Compound2(func, w1, w2);
+	  adr++;
+	}
+      else
+	w1 = Dcg_Body(*adr++, TRUE, in_word, out_word, NULL);
       w2 = Dcg_Body(*adr, TRUE, in_word, out_word, NULL);
 
       *top++ = Dcg_Compound2(ATOM_CHAR(';'), w1, w2);
-- 
2.43.0

