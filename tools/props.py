TRUST = ("Unbounded proof over the real C functions, function by function against contracts. Trusts clang's front end and three opt passes, the verification "
         "condition generator in /verif/ecv, z3, that distinct live objects do not overlap as laid out in DESIGN.md, and mathematical integers where the evidence lists them. ")

prop('C01', 'The Knuth-Bendix ordering is a sound term comparison',
     'For first-order terms, symbol weights that satisfy the Knuth-Bendix admissibility conditions and any precedence, comparing two terms with the Knuth-Bendix ordering answers "equal" '
     'exactly for equal terms, "greater" or "less" exactly when the textbook ordering relates the terms that way, and "uncomparable" otherwise. '
     'Comparing in the other order gives the mirrored answer, the variables\' bindings are followed as the caller asked, and the answer does not depend on earlier comparisons.',
     ['inputs', 'configurations'], 'all pairs of first-order terms, all acyclic bindings, all admissible weightings and precedences, all three dereferencing modes',
     'The tests run whole proof searches; a wrong comparison only loses completeness or loops in rewriting, and no test compares against the definition.',
     ['ORDERINGS/cto_kbolin.c', 'ORDERINGS/cto_ocb.c', 'ORDERINGS/cto_orderings.c'],
     [('linear KBO comparison', 'ORDERINGS/cto_kbolin.c: KBO6Compare, kbo6cmp, kbolincmp, kbo_weight, inc_vb, mfyvwb'), ('symbol comparison', 'ORDERINGS/cto_ocb.c: OCBFunCompare')],
     TRUST + 'The recursion axioms define the textbook ordering on trees; the variable balance counters are exact below 2^62 symbols.')

prop('C02', 'The lexicographic path ordering is a sound term comparison',
     'For first-order terms and any precedence, comparing two terms with a lexicographic path ordering answers "equal" exactly for equal terms, "greater" or "less" exactly when the textbook ordering '
     'relates the terms that way, and "uncomparable" otherwise. The variables\' bindings are followed as the caller asked, and the answer does not depend on earlier comparisons. '
     'Only for terms nested deeper than the recursion limit may the answer fall back to "uncomparable"; it is never wrong.',
     ['inputs', 'configurations', 'histories'], 'all pairs of first-order terms, all acyclic bindings, all precedences, all three dereferencing modes, any recursion limit',
     'The tests hardly use this ordering and compare only final proof results; a wrong comparison loses completeness or makes rewriting loop.',
     ['ORDERINGS/cto_lpo.c', 'ORDERINGS/cto_ocb.c', 'ORDERINGS/cto_orderings.c', 'TERMS/cte_termfunc.c'],
     [('LPO4', 'ORDERINGS/cto_lpo.c: LPO4Compare, LPO4Greater, lpo4_greater, lpo4_alpha, lpo4_majo, lpo4_lex_ma'), ('equality and occurrence', 'TERMS/cte_termfunc.c: TermStructEqualDeref, TermIsSubterm'),
      ('symbol comparison', 'ORDERINGS/cto_ocb.c: OCBFunCompare')],
     TRUST + 'The proof covers LPO4 against the recursion equations of its published algorithm, taking the transitivity and subterm property of path orderings as given; the older LPO and the copying '
     'variants are covered by the bounded stand-in, which uses the textbook definition.')

prop('C03', 'Matching finds the substitution exactly when one exists',
     'Matching a pattern against a first-order term under the bindings already made succeeds exactly when those bindings can be extended, sort by sort, to make the pattern equal to the term. '
     'On success the recorded bindings are exactly that extension and earlier bindings are unchanged; on failure bindings and substitution are as before the call.',
     ['inputs', 'histories'], 'all pattern/term pairs, all earlier bindings',
     'Tests never see a missed match (search merely takes another path) and a wrong match only shows up as an unsound proof on rare terms.',
     ['TERMS/cte_match_mgu_1-1.c', 'TERMS/cte_subst.c', 'TERMS/cte_subst.h', 'BASICS/clb_plocalstacks.c', 'BASICS/clb_pstacks.h'],
     [('match', 'TERMS/cte_match_mgu_1-1.c: SubstComputeMatch'), ('work list', 'BASICS/clb_plocalstacks.h'), ('undo', 'TERMS/cte_subst.c: SubstBacktrackToPos')],
     TRUST + 'Shared terms: structurally equal terms of one bank are one object (property of the term bank) and cached weights are right; both are stated as preconditions here.')

prop('C04', 'Unification computes a most general unifier or reports that none exists',
     'Unifying two first-order terms under acyclic bindings succeeds exactly when the bindings can be extended, respecting sorts, to make both terms equal. '
     'The bindings added on success make the terms equal, stay acyclic and are most general; on failure bindings and substitution are as before the call.',
     ['inputs', 'histories'], 'all term pairs, all acyclic earlier bindings',
     'Missing or over-specific unifiers only lose proofs and a missing occurs check needs special terms; no test checks the unifier itself.',
     ['TERMS/cte_match_mgu_1-1.c', 'TERMS/cte_subst.c', 'TERMS/cte_subst.h', 'BASICS/clb_pqueue.h', 'BASICS/clb_pqueue.c'],
     [('mgu', 'TERMS/cte_match_mgu_1-1.c: SubstComputeMgu, OccurCheck'), ('dereferencing', 'TERMS/cte_termfunc.h: TermDerefAlways'), ('job queue', 'BASICS/clb_pqueue.h')],
     TRUST + 'Termination of the unification loop is not proved (partial correctness); the bounded stand-in would show a hang.')

prop('C05', 'Undoing a substitution restores exactly the earlier bindings',
     'After any sequence of adding bindings, unifying, matching and undoing, undoing to a remembered position restores every variable\'s binding and the substitution to what they were at that position, '
     'however many bindings came in between. The substitution always lists exactly the variables it bound, and a failed unification or match leaves nothing behind.',
     ['histories'], 'all histories of substitution operations',
     'A leftover binding corrupts later inferences far from its cause; tests exercise a few search histories and compare only final results.',
     ['TERMS/cte_subst.c', 'TERMS/cte_subst.h', 'TERMS/cte_match_mgu_1-1.c', 'BASICS/clb_pstacks.c', 'BASICS/clb_pstacks.h'],
     [('binding and undo', 'TERMS/cte_subst.c: SubstAddBinding, SubstBacktrackSingle, SubstBacktrackToPos, SubstBacktrack'), ('trail', 'BASICS/clb_pstacks.h')],
     TRUST)

prop('C14', 'Stacks, queues and growable arrays never lose, reorder or invent elements',
     'After any history of operations a stack returns its elements last in first out, a double-ended queue in queue order from either end, and a growable array returns for each index the value last '
     'stored there or its default, across every internal growth and wrap-around. Copies are independent of their originals and counting operations report the true number of elements.',
     ['histories', 'inputs'], 'all operation histories on positive-capacity containers, all sizes',
     'Growth and wrap-around happen at sizes and phases the tests do not hit in a controlled way, and corrupted contents surface only as odd search behaviour.',
     ['BASICS/clb_pstacks.h', 'BASICS/clb_pstacks.c', 'BASICS/clb_pqueue.h', 'BASICS/clb_pqueue.c', 'BASICS/clb_pdarrays.h', 'BASICS/clb_pdarrays.c'],
     [('stack', 'BASICS/clb_pstacks.[ch]'), ('queue', 'BASICS/clb_pqueue.[ch]'), ('array', 'BASICS/clb_pdarrays.[ch]')],
     TRUST)

prop('C06', 'The term bank holds each term once and inserts exactly the term asked for',
     'Inserting a first-order term into a term bank, plainly, instantiated by the current bindings to the requested depth, with one subterm replaced by another, or as a variable-disjoint variant, returns '
     'the bank\'s single cell for exactly the term described, and never changes another term of the bank. Each cell\'s cached weight, symbol count, variable count and groundness are those of its term. '
     'Garbage collection removes exactly the terms that are not reachable from marked terms.',
     ['histories', 'inputs'], 'all first-order terms, all acyclic bindings, all histories of insertions and collections',
     'All equality tests, indices and weights in the prover rely on sharing and cached attributes; a wrong or doubled cell shows up only as lost or wrong inferences much later.',
     ['TERMS/cte_termbanks.c', 'TERMS/cte_termcellstore.c', 'TERMS/cte_termtrees.c', 'TERMS/cte_termtypes.h', 'TERMS/cte_termvars.h'],
     [('insertion', 'TERMS/cte_termbanks.c: tb_termtop_insert, TBInsert and its variants, TBInsertRepl, TBInsertReplPlain, TBInsertInstantiatedFO, TBInsertDisjoint'),
      ('cell store', 'TERMS/cte_termcellstore.c, TERMS/cte_termtrees.c'), ('garbage collection', 'TERMS/cte_termbanks.c: TBGCMarkTerm, TBGCSweep')],
     TRUST + 'The cell store (hash table of splay trees), the variable bank, sort inference and the garbage collector are under assumed contracts and covered by the bounded stand-in only.')

prop('C09', 'Generating inferences give exactly the conclusions the calculus names',
     'Equality resolution, equality factoring, ordered factoring and superposition add to the clause set only conclusions of the rule they implement: an instance by a most general unifier of the parents\' literals, with the '
     'replaced term replaced (at one place or, in the simultaneous variants, at all places), resolved and repeated literals left out. Every admitted position of the given clause, and every admitted pair of positions of the given clause '
     'and an indexed clause, is tried: maximal or selected literals, sides the ordering does not exclude, no variable positions. No conclusion the rule admits under the ordering is left out, none is more special than '
     'necessary, its variables are apart from its parents, its literal counts are right, and the parents keep their literals and carry no bindings.',
     ['inputs', 'configurations', 'histories'], 'all clauses with marked maximal literals, all orderings, all index kinds, all histories of index insertion and deletion; completeness of superposition for the indexed version',
     'A conclusion that is wrong makes proofs wrong; one that is missing or too special only loses proofs on problems nobody tested. Both need particular literal positions, variable sharing or index contents.',
     ['CLAUSES/ccl_eqnresolution.c', 'CLAUSES/ccl_factor.c', 'CLAUSES/ccl_paramod.c', 'CLAUSES/ccl_clausepos.c', 'CONTROL/cco_eqnresolving.c', 'CONTROL/cco_factoring.c', 'CONTROL/cco_paramodulation.c',
      'CLAUSES/ccl_overlap_index.c', 'TERMS/cte_fp_index.c', 'TERMS/cte_idx_fp.c', 'CLAUSES/ccl_subterm_index.c', 'CLAUSES/ccl_global_indices.c'],
     [('positions', 'CLAUSES/ccl_clausepos.c: ClausePosFindPosLiteral, ClausePosFindMaxLiteral, ClausePosFindFirstMaximalSide, ClausePosFindNextMaximalSide; CLAUSES/ccl_eqnresolution.c: ClausePosFirstEqResLiteral, ClausePosNextEqResLiteral; '
       'CLAUSES/ccl_factor.c: ClausePosFirstOrderedFactorLiterals, ClausePosNextOrderedFactorLiterals, ClausePosFirstEqualityFactorSides, ClausePosNextEqualityFactorSides'),
      ('all inferences of a clause', 'CONTROL/cco_eqnresolving.c: ComputeAllEqnResolvents; CONTROL/cco_factoring.c: ComputeAllOrderedFactors, ComputeAllEqualityFactors; CONTROL/cco_paramodulation.c: ComputeAllParamodulants, ComputeAllParamodulantsIndexed'),
      ('conclusions', 'CLAUSES/ccl_eqnresolution.c: ComputeEqRes; CLAUSES/ccl_factor.c: ComputeOrderedFactor, ComputeEqualityFactor; CLAUSES/ccl_paramod.c'),
      ('indices', 'CLAUSES/ccl_overlap_index.c, TERMS/cte_fp_index.c, TERMS/cte_idx_fp.c')],
     TRUST + 'Proved: the enumeration of positions for equality resolution and both factoring rules, and that every admitted position of a clause of any length is tried. '
     'The construction of the conclusions, superposition and the indices are covered by the bounded stand-in only.')

prop('C10', 'Rewriting replaces terms by equal, smaller terms, up to normal form',
     'Normalising a clause with a set of demodulators replaces each side of each literal by a term that is equal to it in every model of the demodulators and not greater in the term ordering; the replacement results from rewrite steps with '
     'the demodulators recorded in the clause\'s derivation and no others, literal signs are kept, no variable bindings are left behind, other clauses do not change. Unorientable equations are only used in instances that decrease. '
     'Where rewriting is not restricted, the result contains no instance of a rule and no decreasing instance of an equation of the set. The left side of a rule under limited rewriting is not rewritten by a variant of itself. '
     'The processed clauses found rewritable with a new demodulator are exactly those it rewrites. Cached rewrite links and normal form dates never change these results.',
     ['inputs', 'configurations', 'histories'], 'first-order clauses, all demodulator sets, all histories of adding and removing demodulators between normalisations',
     'Links and dates are cached in shared terms across the whole run: a wrong link or date shows only after a particular sequence of additions, removals and normalisations, and a wrong replacement makes the proof wrong.',
     ['CLAUSES/ccl_rewrite.c', 'TERMS/cte_replace.c', 'CLAUSES/ccl_subterm_index.c', 'CLAUSES/ccl_pdtrees.c', 'CLAUSES/ccl_clausepos.c', 'CONTROL/cco_simplification.c', 'CLAUSES/ccl_clausesets.c'],
     [('links and demodulators', 'TERMS/cte_replace.c: TermAddRWLink; CLAUSES/ccl_rewrite.c: subst_complete_min_instance, instance_is_rule, term_follow_top_RW_chain, indexed_find_demodulator, rewrite_with_clause_set, rewrite_with_clause_set_list'),
      ('normal forms', 'CLAUSES/ccl_rewrite.c: term_subterm_rewrite, term_li_normalform, eqn_li_normalform, ClauseComputeLINormalform'),
      ('backward', 'CLAUSES/ccl_rewrite.c: term_is_top_rewritable, term_is_rewritable, term_find_rw_clauses; CLAUSES/ccl_subterm_index.c: ClauseCollectIdxSubterms; CONTROL/cco_simplification.c: RemoveRewritableClausesIndexed')],
     TRUST + 'Proved for all terms, demodulators and histories of links: every link leads to an equal, smaller term, and so do all replacements up to whole clauses; signs, other literals and bindings are kept. '
     'Assumed there: sharing (C06), monotone and stable orderings (C01, C02), matching (C03), and that the demodulator index returns matching unit equations. Normal form, recorded demodulators, limited rewriting and the clauses found are covered by the bounded stand-in.')

prop('C12', 'Clausification preserves what a formula means',
     'Each transformation that turns a first-order formula into clauses keeps its meaning: simplification, negation normal form, scope minimisation, variable renaming, quantifier shifting and distribution '
     'return a formula that is true in exactly the same interpretations and assignments; introducing definitions and Skolem functions, and clausification as a whole, give clauses that are satisfiable in an expansion '
     'of an interpretation exactly when the formula holds in it. Each step also delivers the normal form it is named after.',
     ['inputs'], 'all first-order formulas over all connectives and quantifiers, all interpretations',
     'A wrong transformation is visible only on formulas where the lost or added models matter for the conjecture; the tests check a handful of problems end to end.',
     ['CLAUSES/ccl_tcnf.c', 'CLAUSES/ccl_tformulae.c', 'CLAUSES/ccl_tformulae.h', 'CLAUSES/ccl_formulafunc.c', 'CLAUSES/ccl_formula_wrapper.c', 'CLAUSES/ccl_fcvindexing.c'],
     [('simplification, normal forms', 'CLAUSES/ccl_tcnf.c: TFormulaSimplify, TFormulaNNF, troot_nnf, TFormulaMiniScope, TFormulaDistributeDisjunctions, TFormulaNegate, TFormulaVarRename, TFormulaShiftQuantors, TFormulaSkolemizeOutermost'),
      ('free variables, construction', 'CLAUSES/ccl_tformulae.c: TFormulaVarIsFree, EncodePredicateAsEqn, TFormulaAddQuantor'), ('definitions', 'CLAUSES/ccl_tcnf.c: TFormulaApplyDefs, tform_copy_mod'),
      ('whole clausification', 'CLAUSES/ccl_formulafunc.c: FormulaSetCNF2; CLAUSES/ccl_formula_wrapper.c: WFormulaCNF2')],
     TRUST + 'Proved: simplification, negation normal form, mini-scoping, distribution, negation, applying definitions, free variables, literal encoding. '
     'Variable renaming, quantifier shifting, Skolemisation, the choice of definitions, clause extraction and the shape of the results are bounded (finite interpretations).')

prop('C16', 'Equations are oriented and literals compared as the term ordering dictates',
     'Orienting an equation exchanges its sides exactly when the left one is smaller in the term ordering, and marks it oriented exactly when its left side is then greater. Equations and literals compare exactly as the '
     'multiset extension of the term ordering says (literals of different sign, selected and pseudo literals as documented), so that the mirrored comparison gives the mirrored answer. '
     'Marking maximal literals marks exactly the maximal and strictly maximal literals of a clause and leaves its literals as they were.',
     ['inputs', 'configurations'], 'all literals and literal lists, all term orderings, all bindings, all literal comparison modes (those that compare predicate symbols first with a total precedence)',
     'A wrong orientation or maximality mark silently drops inferences or lets rewriting loop; the tests only see whether a few proofs are still found.',
     ['CLAUSES/ccl_eqn.c', 'CLAUSES/ccl_eqnlist.c', 'CLAUSES/ccl_clauses.c'],
     [('orientation', 'CLAUSES/ccl_eqn.c: EqnOrient, EqnSwapSides; CLAUSES/ccl_eqnlist.c: EqnListOrient'),
      ('comparison', 'CLAUSES/ccl_eqn.c: compare_pos_eqns, compare_poseqn_negeqn, EqnCompare, tfo_literal_compare, LiteralCompare'),
      ('maximality', 'CLAUSES/ccl_eqnlist.c: EqnListMaximalLiterals, EqnListEqnIsMaximal, EqnListEqnIsStrictlyMaximal; CLAUSES/ccl_clauses.c: ClauseMarkMaximalTerms')],
     TRUST + 'The term ordering is any strict partial order. EqnListMaximalLiterals, which relinks the literal list, is covered by the bounded stand-in only.')

prop('C18', 'Subsumption is reported exactly when it holds',
     'A clause is reported to subsume another only if some instance of it is contained in the other clause as a multiset of literals (equations up to exchanging sides); a unit clause only if an instance of '
     'it is a literal of the other clause or equates the two sides of a positive equation by replacing subterms. Every such multiset subsumption by a non-unit clause, and every instance of a unit clause with sides in '
     'the same order, is found. Searching a clause set through its feature-vector index gives the same answers as testing its clauses one by one, and unit cutting (simplify-reflect) removes only literals that '
     'a unit clause of the set contradicts. The clauses are unchanged afterwards and no binding is left behind.',
     ['inputs', 'histories'], 'all clauses with literals in subsumption order, all clause sets, indexed or not',
     'Deleting a clause that is not subsumed makes the prover lose proofs or report a wrong satisfiable; the search tries assignments of literals with backtracking, and the tests see a few answers only.',
     ['CLAUSES/ccl_subsumption.c', 'CLAUSES/ccl_eqn.c', 'CLAUSES/ccl_unit_simplify.c', 'CLAUSES/ccl_freqvectors.c', 'CLAUSES/ccl_fcvindexing.c', 'TERMS/cte_match_mgu_1-1.c'],
     [('literal assignment search', 'CLAUSES/ccl_subsumption.c: eqn_list_rec_subsume, find_spec_literal, check_subsumption_possibility, clause_subsumes_clause'),
      ('unit clauses', 'CLAUSES/ccl_subsumption.c: eqn_topsubsumes_termpair, eqn_subsumes_termpair, LiteralSubsumesClause, UnitClauseSubsumesClause, ClausePositiveSimplifyReflect, ClauseNegativeSimplifyReflect'),
      ('sets and index', 'CLAUSES/ccl_subsumption.c: ClauseSetSubsumesClause, ClauseSetFindSubsumedClauses; CLAUSES/ccl_freqvectors.c: FVCollectFreqVector; CLAUSES/ccl_fcvindexing.c: FVIndexInsert, FVIndexDelete')],
     TRUST + 'Proved: the literal assignment search, its pre-test and the literal class comparison, against the matching contract of C03. The unit tests, the weight and literal-count tests, the set scans and the feature-vector index are covered by the bounded '
     'stand-in only. Literals are in subsumption order, orientation is stable under instantiation (C01, C02, C16), cached weights are right (C06).')

prop('C20', 'Only tautologies and redundant literals are thrown away',
     'A clause is called trivial exactly when it contains a literal that is true by syntax (equal sides, or a disequation of different distinct objects) or two complementary literals, and called a tautology only '
     'if it is true in every interpretation. Removing duplicate, false or AC-resolvable literals deletes exactly those literals, keeps the others and their order, and leaves correct literal counts. '
     'Condensation replaces a clause only by an instance of itself that subsumes it.',
     ['inputs'], 'all clauses with properly marked literals, short and long',
     'A wrongly deleted clause or literal silently makes the search unsound or incomplete; the long-clause paths and AC cases are practically never taken by the tests, and no test compares with a definition.',
     ['CLAUSES/ccl_eqn.c', 'CLAUSES/ccl_eqnlist.c', 'CLAUSES/ccl_clauses.c', 'CLAUSES/ccl_tautologies.c', 'CLAUSES/ccl_condensation.c', 'BASICS/clb_pstacks.c'],
     [('trivial literals and clauses', 'CLAUSES/ccl_eqn.c: EqnIsTrue, EqnIsFalse, EqnTermsAreDistinct, EqnSyntaxCompare; CLAUSES/ccl_eqnlist.c: EqnListFindTrue, EqnListIsTrivial, EqnLongListIsTrivial; CLAUSES/ccl_clauses.c: ClauseIsTrivial'),
      ('tautologies', 'CLAUSES/ccl_tautologies.c: ClauseIsTautology, ClauseIsTautologyReal'), ('literal removal', 'CLAUSES/ccl_eqnlist.c: EqnListRemoveDuplicates, EqnListRemoveResolved, EqnListRemoveACResolved; CLAUSES/ccl_clauses.c: ClauseRemoveSuperfluousLiterals'),
      ('condensation', 'CLAUSES/ccl_condensation.c: Condense, try_condensation')],
     TRUST + 'Proved: the literal tests, the complementary-pair search and the literal comparisons. The removal functions (which relink lists through pointers to links), ground completion and condensation are covered by the bounded stand-in only. '
     'ClauseIsTautology is not claimed to find every tautology.')
