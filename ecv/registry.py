"""property id -> what decides it"""


class Prop:
    def __init__(self, id, specs, native=(), cost=''):
        self.id = id
        self.specs = specs            # [(spec module, [functions] or None)]
        self.native = native          # [(program, quick args, thorough args, what it enumerates)]
        self.cost = cost


STACK = ['PStackGrow', 'PStackAlloc', 'PStackPushP', 'PStackPop', 'PStackReset', 'PStackFree', 'PStackElement']
QUEUE = ['PQueueGrow', 'PQueueAlloc', 'PQueueStoreP', 'PQueueBuryP', 'PQueueGetNext', 'PQueueGetLast', 'PQueueFree']

PROPS = {p.id: p for p in [
    Prop('C01', [('kbo', None)],
         [('c01_kbo', [60, 4000], [1500, 20000],
           'all pairs of terms up to depth 2 over u/1 v/1 f/2 a b X Y, then random terms up to depth 4 over 8 symbols and up to 80 variables, '
           'random admissible weights, total and partial precedences, random acyclic bindings, all three dereferencing modes')]),
    Prop('C02', [('lpo', None)],
         [('c02_lpo', [200, 3000], [8000, 6000],
           'all pairs of terms up to depth 2 over u/1 v/1 f/2 a b X Y, then random terms up to depth 4 over 8 symbols and up to 80 variables, all four path orderings (LPO4, LPO and their copying '
           'variants), total and partial precedences, random acyclic bindings, all three dereferencing modes; towers of depth 80 with recursion limits below and at the needed depth')]),
    Prop('C03', [('match', None), ('seq', STACK)],
         [('c03_match', [300, 200], [20000, 400],
           'chains of 1 to 3 matches under one substitution over two sorts and 15 symbols of arity up to 70, terms up to depth 3 or combs of length 180, '
           'against matching on plain trees')]),
    Prop('C04', [('unify', None), ('seq', STACK + QUEUE)],
         [('c04_unify', [300, 400], [30000, 400],
           'pairs of terms of depth up to 4 (or combs of length 180) over two sorts and 15 symbols of arity up to 70, with and without earlier bindings, '
           'against Robinson unification on plain trees: success, unifier, generality, sorts, acyclicity, undo')]),
    Prop('C05', [('unify', ['SubstAddBinding', 'SubstBacktrackSingle', 'SubstBacktrackToPos', 'SubstBacktrack', 'SubstComputeMgu']),
                 ('match', ['SubstComputeMatch']), ('seq', STACK)],
         [('c05_undo', [12000, 30], [1000000, 30], 'random histories of binding, unification, matching, marking and undoing, against snapshots of all bindings')]),
    Prop('C06', [('bank', None)],
         [('c06_bank', [60000, 20], [4000000, 200],
           'random histories of all insertion functions with bindings, replacements and variants, of searches and of garbage collections on one bank (and copies through a second bank) '
           'over two sorts and 15 symbols of arity up to 70, against interned plain trees: denoted tree, one cell per tree, cached weight, counts and flags, other terms unchanged, number of cells'),
          ('=c06_bank', [30000, 20], [2000000, 100], 'the same with the production memory manager')]),
    Prop('C09', [('infer', None), ('seq', STACK)],
         [('c09_infer', [2500, 60], [400000, 60],
           'random clauses (equations, predicates, repeated and trivial literals, up to 5 literals) under random orderings and literal selections: equality resolution, equality factoring, ordered factoring, and '
           'superposition through the fingerprint indices (all index kinds, all simultaneous variants, insertions and deletions) and without, against all conclusions computed on plain trees')]),
    Prop('C10', [('rw', None), ('rwidx', None)],
         [('c10_rewrite', [1500, 30], [200000, 40],
           'histories of up to 40 clauses under random orderings: normalising with rules and equations, taking up unit equations as demodulators, finding and taking back the processed clauses they rewrite (all fingerprint indices and without), '
           'against rewriting on plain trees with the recorded demodulators'),
          ('=c10_rewrite', [2000, 30], [200000, 60], 'the same with the production memory manager')]),
    Prop('C12', [('cnf', None)],
         [('c12_cnf', [1500, 5], [300000, 6],
           'random first-order formulas with all connectives, shadowed and vacuous quantifiers, equality and the constants, parsed and run through every step and through the whole clausification, '
           'against evaluation in random interpretations with 1 to 3 elements (new symbols: all tables of definitions and Skolem functions)')]),
    Prop('C14', [('seq', None)],
         [('c14_seq', [200, 4000], [20000, 8000],
           'random operation histories on stacks, queues and growable arrays (up to 20000 elements, several growth steps, wrap-around), against plain arrays'),
          ('=c14_seq', [100, 4000], [10000, 8000], 'the same with the production memory manager')]),
    Prop('C16', [('lits', None)],
         [('c16_lits', [1500, 60], [200000, 60],
           'random literal lists of 1 to 9 literals (equations, predicates, constants, selected and pseudo literals, with and without bindings) under random orderings (KBO6, LPO4) and literal comparison modes, '
           'against the multiset definitions over the term ordering: orientation, comparison, maximality marks and tests, list left intact')]),
    Prop('C18', [('subs', None), ('match', None), ('seq', STACK)],
         [('c18_subs', [2000, 60], [400000, 60],
           'random clause sets and clauses (units, equations oriented or not, repeated literals, up to 8 literals), one-to-one tests, scans and feature-vector index queries, against enumeration of all '
           'injective literal maps with matching on plain trees: answers, soundness of the witness, order of arguments, completeness for strict multiset subsumption, unit cutting, nothing changed')]),
    Prop('C20', [('taut', None)],
         [('c20_taut', [3000, 60], [400000, 60],
           'random clauses (equations, predicates, constants, distinct objects, repeated, complementary and trivial literals, AC symbols, up to 30 literals), against congruence closure and plain-tree '
           'definitions: tautology and triviality tests, removal of duplicate, false and AC-trivial literals with the literal counts, condensation, searching a sorted stack')]),
]}
