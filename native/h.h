/* shared by the native witness searches: a small world of first-order terms
   built through the public interfaces of the current sources */
#ifndef H_H
#define H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <cio_initio.h>
#include <cte_termbanks.h>
#include <cte_subst.h>
#include <cto_ocb.h>
#include <cto_orderings.h>

bool app_encode = false;
static TypeBank_p h_types;
static Sig_p h_sig;
static TB_p h_tb;
static unsigned long h_rnd = 88172645463325252UL;
static long h_checked, h_failed;
static void (*h_describe)(void);     /* prints the case that is running */
static char *h_prop = "";


static long h_budget;                /* seconds; 0: no limit */
static void h_alarm(int sig)
{
   static long last = -1, n, t;
   if(last == h_checked) n++; else n = 0;
   last = h_checked; t++;
   if(n >= 40) { printf("WITNESS the code under test does not terminate: no progress for 40 s "); if(h_describe) h_describe(); printf("\nCHECKED %ld FAILED 1\n", h_checked); fflush(stdout); _exit(1); }
   if(h_budget && t >= h_budget && !n)
   {
      char buf[100]; int k = snprintf(buf, sizeof(buf), "\nCHECKED %ld FAILED %ld (time budget used up)\n", h_checked, h_failed);
      if(write(1, buf, k)) {} _exit(h_failed ? 1 : 0);
   }
   alarm(1);
}

static void h_init(void)
{
   char *seed = getenv("VERIF_SEED");
   if(seed) { h_rnd += 7919UL * (unsigned long)atol(seed); }
   if(getenv("ECV_BUDGET")) h_budget = atol(getenv("ECV_BUDGET"));
   signal(SIGALRM, h_alarm); alarm(1);
   InitIO("witness");
   h_types = TypeBankAlloc();
   h_sig = SigAlloc(h_types);
   SigInsertInternalCodes(h_sig);
   h_tb = TBAlloc(h_sig);
}

static Term_p h_term(char *str)
{
   Scanner_p in = CreateScanner(StreamTypeUserString, str, true, NULL, true);
   ScannerSetFormat(in, TSTPFormat);
   Term_p t = TBTermParse(in, h_tb);
   DestroyScanner(in);
   return t;
}

static unsigned long rnd(unsigned long n)
{
   h_rnd ^= h_rnd << 13; h_rnd ^= h_rnd >> 7; h_rnd ^= h_rnd << 17;
   return (h_rnd >> 11) % n;
}

/* plain text of a term as a tree, following bindings if deref */
static void h_put(FILE *out, Term_p t, int d)
{
   while(d && t->binding && t->f_code < 0) { t = t->binding; if(d == 1) d = 0; }
   if(t->f_code < 0) { fprintf(out, "X%ld", (long)-t->f_code); return; }
   fprintf(out, "%s", SigFindName(h_sig, t->f_code));
   if(t->arity)
   {
      int i;
      fprintf(out, "(");
      for(i = 0; i < t->arity; i++) { if(i) fprintf(out, ","); h_put(out, t->args[i], d); }
      fprintf(out, ")");
   }
}

#define FAIL_BEGIN printf("WITNESS ");
#define FAIL_END do { printf("\n"); fflush(stdout); if(++h_failed >= 5) { printf("CHECKED %ld FAILED %ld\n", h_checked, h_failed); fflush(stdout); _exit(1); } } while(0)

static int h_done(void)
{
   printf("CHECKED %ld FAILED %ld\n", h_checked, h_failed);
   fflush(stdout);
   _exit(h_failed ? 1 : 0);
}
#endif
