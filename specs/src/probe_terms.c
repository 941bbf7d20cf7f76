/* keeps the header's inline functions alive so that they can be verified on their own */
#include <cte_subst.h>
#include <cte_termtypes.h>
void *probe_terms[] = { (void*)TermDerefAlways, (void*)SubstAddBinding, (void*)TermDeref };
