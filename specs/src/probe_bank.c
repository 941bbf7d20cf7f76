/* keeps the header's inline functions alive so that they can be verified on their own */
#include <cte_termbanks.h>
void *probe_bank[] = { (void*)TermDeref, (void*)TermTopCopyWithoutArgs, (void*)TermTopFree, (void*)VarBankVarAssertAlloc };
