From 7550f53ef2572c1719243d23af6963a0d3b2a801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:57 +0000
Subject: [PATCH 1/5] fix: KBO6 must not call terms with incomparable head
 symbols equal

kbolincmp() left the result at to_equal when two non-variable terms of
equal weight have distinct head symbols that the (possibly partial)
precedence does not order. The reference implementation kbo6cmp() and
the documentation of KBO6Compare() say to_uncomparable.
---
 ORDERINGS/cto_kbolin.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ORDERINGS/cto_kbolin.c b/ORDERINGS/cto_kbolin.c
index 34e8f57..8dda2c4 100644
--- a/ORDERINGS/cto_kbolin.c
+++ b/ORDERINGS/cto_kbolin.c
@@ -863,6 +863,10 @@ static CompareResult kbolincmp(OCB_p ocb, Term_p s, Term_p t,
          {
             res = l_or_n;
          }
+         else
+         {
+            res = to_uncomparable;
+         }
       }
    }
    return res;
-- 
2.43.0


From d88fc943dba6d460d2aba1c02ca973c0c7c4d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:16 +0000
Subject: [PATCH 2/5] fix: TermCellStoreDelete() reads the arity of a term cell
 after freeing it

---
 TERMS/cte_termcellstore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TERMS/cte_termcellstore.c b/TERMS/cte_termcellstore.c
index 7469c26..73b181f 100644
--- a/TERMS/cte_termcellstore.c
+++ b/TERMS/cte_termcellstore.c
@@ -214,13 +214,14 @@ Term_p  TermCellStoreExtract(TermCellStore_p store, Term_p term)
 bool TermCellStoreDelete(TermCellStore_p store, Term_p term)
 {
    bool ret;
+   int arity = term->arity; /* term is freed by TermTreeDelete() */
 
    ret = TermTreeDelete(&(store->store[TermCellHash(term)]), term);
 
    if(ret)
    {
       store->entries--;
-      store->arg_count-=term->arity;
+      store->arg_count-=arity;
    }
    assert(store->entries>=0);
    return ret;
-- 
2.43.0


From fc1ca14f938e7adb19270d6596d4f7ee8666781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:26 +0000
Subject: [PATCH 3/5] fix: PStackBinSearch misses elements and returns the
 wrong position

The upper bound is exclusive, so the search must not skip the element below
the probed one, and the position of the next bigger element is lower, not
lower+1. EqnLongListIsTrivial() missed complementary literals.
---
 BASICS/clb_pstacks.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BASICS/clb_pstacks.c b/BASICS/clb_pstacks.c
index a83ed61..749e3e4 100644
--- a/BASICS/clb_pstacks.c
+++ b/BASICS/clb_pstacks.c
@@ -223,7 +223,7 @@ PStackPointer PStackBinSearch(PStack_p stack, void* key, PStackPointer lower,
       //printf("Pup %d\n",cmpres);
       if(cmpres < 0)
       {
-         upper = i-1;
+         upper = i;
       }
       else if(cmpres > 0)
       {
@@ -235,7 +235,7 @@ PStackPointer PStackBinSearch(PStack_p stack, void* key, PStackPointer lower,
       }
    }
    //printf("Regular exit\n");
-   return lower+1;
+   return lower;
 }
 
 
-- 
2.43.0


From bc6dcdef3afc3ac4c66b5b5ac8c8fdcb44792b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:48 +0000
Subject: [PATCH 4/5] fix: rename all variables of an equality factor

ComputeEqualityFactor normalised the variables of all literals except the
partner literal, although terms of that literal occur in the factor.
Variables only occurring there stayed unrenamed and could coincide with
fresh variables, giving a needlessly specific factor.
---
 CLAUSES/ccl_factor.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CLAUSES/ccl_factor.c b/CLAUSES/ccl_factor.c
index 40845da..7264a4b 100644
--- a/CLAUSES/ccl_factor.c
+++ b/CLAUSES/ccl_factor.c
@@ -296,8 +296,7 @@ void ComputeEqualityFactor(TB_p bank, OCB_p ocb, ClausePos_p pos1,
                      pos1->literal))
          {
             *subst_is_ho = SubstHasHOBinding(subst);
-            NormSubstEqnListExcept(pos1->clause->literals, pos2->literal,
-                                   subst, freshvars);
+            NormSubstEqnList(pos1->clause->literals, subst, freshvars);
             new_lside = TBInsertNoProps(bank, min_term, DEREF_ALWAYS);
             new_rside = TBInsertNoProps(bank,
                         ClausePosGetOtherSide(pos2),
-- 
2.43.0


From c0b6a9394f4e6442313ac6e24751db41a026f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:48 +0000
Subject: [PATCH 5/5] fix: do not instantiate twice in super-simultaneous
 paramodulation

ClauseOrderedSuperSimParamod copied the already instantiated literals with
EqnListCopyRepl, which applies the current bindings again and can merge
fresh variables with bound variables of the parents. Use EqnListCopyReplPlain
as in the indexed version.
---
 CLAUSES/ccl_paramod.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CLAUSES/ccl_paramod.c b/CLAUSES/ccl_paramod.c
index 172df03..12b5ef0 100644
--- a/CLAUSES/ccl_paramod.c
+++ b/CLAUSES/ccl_paramod.c
@@ -978,7 +978,7 @@ Clause_p ClauseOrderedSuperSimParamod(TB_p bank, OCB_p ocb, ClausePos_p
 
       tmp_copy = EqnListCopy(into->clause->literals, bank);
 
-      into_copy = EqnListCopyRepl(tmp_copy, bank, tmp_lhs, rhs_instance);
+      into_copy = EqnListCopyReplPlain(tmp_copy, bank, tmp_lhs, rhs_instance);
 
       EqnListFree(tmp_copy);
 
-- 
2.43.0

