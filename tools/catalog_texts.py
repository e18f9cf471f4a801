"""The properties, as text.  tools/catalog.py writes properties.jsonl and MANIFEST.json from it."""
T = "src/kernel/term.rs"


def fill(prop):
    prop("C01", "Terms are stored without loss",
         "A term built from its parts (an atom, an application, a function type, a lambda or a quantifier) and then taken apart "
         "again gives back exactly those parts, whatever their size or nesting, and every query about its shape (head, arguments, "
         "whether it is atomic, a given constant, a lambda or a quantifier) answers for that tree. "
         "A term too large for the storage format is refused rather than stored as a different term.",
         ["inputs"], "every tree of terms, of any depth and size, including terms at and beyond the limits of the flat storage format",
         "The flat encoding stores offsets in fixed-width fields; what can go wrong depends on size and nesting combinations that a finite list of small terms never reaches.",
         [T, "src/kernel/atom.rs"],
         [("flat pre-order encoding with right-child offsets", T + ": Term, TermRef, TermComponent"),
          ("taking apart", T + ": TermRef::decompose, split_application, split_pi, split_lambda, iter_args"),
          ("construction", T + ": Term::apply, pi, lambda, forall, exists, spine constructors")])
    prop("C02", "Bound variables are substituted without capture",
         "Opening a binder, shifting, and replacing or abstracting variables under binders implement exactly the standard operations on "
         "nameless terms: a bound variable always refers to the same binder before and after, an escaping one is reported exactly when "
         "it escapes, and instantiating a function type by an argument gives its result type with that argument in place. "
         "Where an index would not fit, the operation refuses instead of referring to another binder.",
         ["inputs"], "every term, every binder nesting, every index and substituted term",
         "Capture shows only at particular combinations of nesting depth, dangling index and substituted term, and there are infinitely many of them.",
         [T],
         [("binder operations", T + ": open_bound, shift_bound, substitute_bound, convert_free_to_bound"),
          ("queries about bound variables", T + ": references_bound, has_escaping_bound_variable"),
          ("types of dependent functions", T + ": type_apply_with_arg, get_type_with_context")])
    prop("C03", "Free variables are replaced and renumbered exactly",
         "Replacing a free variable by a term replaces every occurrence of that variable and nothing else, renumbering applies the same "
         "injective map everywhere, and normalizing variable numbers numbers them in order of first occurrence with every variable's "
         "type variables before it. Queries (which variables occur, the largest, the least unused, how many atoms, whether there are scoped constants) answer for the whole term.",
         ["inputs"], "every term, every variable id up to the largest representable one, every replacement term",
         "A missed or additional occurrence depends on where in a term the variable sits and on id values near the limit of their type.",
         [T, "src/kernel/atom.rs", "src/kernel/local_context.rs"],
         [("substitution", T + ": replace_variable, replace_variables, replace_atom"),
          ("renumbering", T + ": normalize_var_ids_with_context, renumber_variables, collect_vars"),
          ("queries", T + ": max_variable, least_unused_variable, has_variable, iter_atoms")])
    prop("C04", "Term orderings are consistent and stable",
         "The term ordering that orients equations is antisymmetric and transitive, equates terms only where it is documented to, is total on distinct terms in its "
         "extended form, and a strictly greater verdict survives substitution and does not depend on how variables are named. "
         "Large terms do not change any of this.",
         ["inputs"], "all pairs and triples of terms, and all substitutions, with no bound on size",
         "A comparison that is inconsistent on one triple, or that a substitution reverses, makes rewriting loop; the failing triples are rare and have to be searched over unboundedly many terms.",
         [T, "src/kernel/atom.rs"],
         [("Knuth-Bendix style comparison", T + ": kbo_cmp, kbo_helper, multi_weight, dominates, partial_tiebreak"),
          ("total extension", T + ": extended_kbo_cmp, total_tiebreak"),
          ("atom order", "src/kernel/atom.rs: stable_partial_order, Ord for Atom")])
    prop("C05", "Subterm paths address exactly one subterm",
         "Looking up a path in a term finds the subterm reached by those function and argument steps or reports that there is none; replacing at a path "
         "changes that subterm and nothing else; the list of rewritable positions gives each position's true subterm and misses none of them.",
         ["inputs"], "every term, every path, every replacement",
         "Offsets into the flat encoding must be adjusted for every ancestor of the replaced position; the error depends on shape, position and size together.",
         [T, "src/kernel/literal.rs"],
         [("paths", T + ": get_term_at_path, replace_at_path, rewritable_subterms_with_paths"),
          ("literal paths", "src/kernel/literal.rs: get_term_at_path, replace_at_path")])
    prop("C06", "Normalizing a term keeps its meaning",
         "Normalizing a term gives a term that differs from it only by beta and eta steps, double negations, the order of the two sides of an equality and de Morgan steps, so one with the same meaning in every interpretation; "
         "no beta redex, eta redex or double negation is left in the result, and normalizing it again changes nothing.",
         ["inputs"], "every well-typed term, of any size and binder nesting",
         "Meaning preservation is a statement about all interpretations of all terms; tests compare a few results with expected strings.",
         ["src/kernel/term_normalization.rs"],
         [("normalization", "src/kernel/term_normalization.rs")])
    prop("C07", "Equations are oriented without changing their meaning",
         "A literal built from two terms states the same equation or inequality between the same two terms, with the larger side first, and says whether it swapped them; "
         "negating changes only the sign, and a literal is called a tautology or impossible only if it is. "
         "Comparing literals is consistent with comparing their sides.",
         ["inputs"], "all pairs of terms and both signs",
         "A wrong swap flag or orientation shows only for particular pairs in the ordering, and the consequence is a wrong proof trace far away.",
         ["src/kernel/literal.rs"],
         [("orientation", "src/kernel/literal.rs: new_with_flip, needs_to_flip, normalize_var_ids_with_context"),
          ("polarity", "src/kernel/literal.rs: negate, extract_polarity, is_tautology, is_impossible")])
    prop("C08", "Clause normalization keeps exactly the stated disjunction",
         "Building or normalizing a clause keeps the stated disjunction: under the reported renumbering of the variables every resulting literal means what some given literal means, and every given literal is there again, "
         "except that a variable-free literal `t != t` is dropped; a literal with a variable is never dropped. The renumbering is one-to-one, carries each variable's type along, leaves pinned variables where they are and covers every variable that occurs. "
         "The literals come out in strictly ascending order, hence without repetitions. A clause is reported as a tautology exactly if (its negative literals standing first) it contains a literal and its negation or an equation `t = t`, and as impossible only when it is empty.",
         ["inputs"], "every list of literals with every assignment of variable types and every number of pinned variables",
         "Sorting, deduplication, renumbering and the trace of which variable became which interact; a wrong trace or a dropped literal needs particular orders and duplicates.",
         ["src/kernel/clause.rs"],
         [("normalization", "src/kernel/clause.rs: Clause::new, new_with_pinned_vars, normalize_with_pinned, normalize_with_var_ids_prefilled, normalize_with_trace, normalize_with_trace_pinned, normalized, normalized_preserving_locals"),
          ("queries", "src/kernel/clause.rs: Clause::is_tautology, is_impossible, contains, extract_polarity, compacted_var_ids_preserving_literal_shape, key_canonicalized_with_pinned")])
    prop("C09", "One-way matching binds variables consistently",
         "When a general term is matched against a special one and this succeeds, the earlier bindings are kept, every variable of the general term is bound, and replacing its variables by their bindings gives the special term, "
         "up to swapping the two sides of equalities inside it; no binding mentions a bound variable of an enclosing binder, and in matching with types every new binding has the type its variable was declared with. "
         "It fails only if no bindings that extend the earlier ones give exactly the special term (with types: none that the type check lets through). "
         "A clause is found to be an instance of another only if one substitution carries the literals of the general one to all those of the special one, one to one, and always if the literals can be paired off so; "
         "so it follows from the general one in every interpretation. Applying a variable map replaces every mapped variable and nothing else, composing maps is applying one after the other, "
         "and a specialized clause says for each variable left in it the type that variable has.",
         ["inputs"], "every pair of terms, literals and clauses, every set of earlier bindings, every context",
         "Soundness and completeness of matching quantify over all pairs of terms and all substitutions.",
         ["src/kernel/variable_map.rs", "src/kernel/checker.rs"],
         [("matching", "src/kernel/variable_map.rs: VariableMap::match_terms, match_terms_no_type_check, match_literal, match_var"),
          ("substitution", "src/kernel/variable_map.rs: apply_to_term, compose, specialize_clause, specialize_clause_with_replacement_context, build_output_context"),
          ("clauses", "src/kernel/checker.rs: Checker::literals_match_with_var_map, clause_matches_with_var_map")],
         theorems=["theorem_clause_instance"])
    prop("C10", "Unification gives a unifier",
         "When two terms with variables from separate scopes unify, applying the resulting substitution to both gives the same term, no variable is bound to a term containing it, and no bound variable escapes its binder.",
         ["inputs"], "all pairs of terms in all scopes, all earlier bindings",
         "Occurs checks and scope bookkeeping fail only on particular chains of bindings.",
         ["src/kernel/unifier.rs"],
         [("unification", "src/kernel/unifier.rs: Unifier::unify, apply")])
    prop("C11", "The equality graph concludes only what follows",
         "After any sequence of inserted ground terms, equalities, inequalities and clauses, two terms are reported equal only if equality follows by congruence from what was inserted, "
         "always if it follows from the inserted equalities, and a contradiction is reported only if what was inserted is inconsistent.",
         ["histories"], "every sequence of insertions of ground terms, equalities, inequalities and clauses",
         "Incremental congruence closure goes wrong only for particular orders of merges, which a fixed list of test sequences cannot cover.",
         ["src/kernel/equality_graph.rs"],
         [("congruence closure", "src/kernel/equality_graph.rs: EqualityGraph")])
    prop("C12", "Inference steps derive only consequences",
         "What is concluded from one clause holds in every interpretation in which that clause holds: by a boolean reduction of any kind at any literal (then for every value of the "
         "variables, including the newly opened ones), by injectivity, which drops the applied function from `f(.., s, ..) != f(.., t, ..)`, and by extensionality, which drops the variables that both "
         "sides are applied to. If-then-else terms are simplified to terms of the same value. The conclusions are typed if the clause is, and their variables have the types of the reported contexts. "
         "Looking for a reduction of one kind at one literal finds it whenever listing all of them does.",
         ["inputs"], "every clause, every literal of it, every kind of reduction",
         "Soundness of a step is a statement about all interpretations of all its instances.",
         ["src/kernel/clause.rs"],
         [("boolean reduction", "src/kernel/clause.rs: Clause::boolean_reduction_at_with_options, find_boolean_reductions_with_locations_with_options, positive_exists_reduction, simplify_ite_term"),
          ("injectivity", "src/kernel/clause.rs: Clause::find_injectivities"),
          ("extensionality", "src/kernel/clause.rs: Clause::find_extensionality, find_extensionality_for_literal")],
         theorems=["theorem_rule", "theorem_reduction", "theorem_injection", "theorem_extension"])
    prop("C13", "Accepted recursive definitions terminate",
         "A recursive definition is accepted exactly if there is an argument position at which every use of the function in its body is a call that passes, at that position, a variable "
         "bound by matching on that very parameter. Every use counts, however it is nested, partially applied or curried, also in the hidden arguments of a constant and in the types of bound "
         "variables; using the function without calling it, or inside a type, rules every position out. The value parameters of a family are not arguments and do not shift them.",
         ["programs"], "every definition body, of any nesting of cases, binders, calls and types",
         "A missed occurrence inside one kind of expression makes a non-terminating definition acceptable and the logic inconsistent; the bodies are unboundedly many.",
         ["src/elaborator/termination_checker.rs", "src/elaborator/binding_map.rs"],
         [("structural recursion check", "src/elaborator/termination_checker.rs: TerminationChecker::new, traverse, traverse_called_function, traverse_hidden_args, traverse_type, check"),
          ("use", "src/elaborator/binding_map.rs: evaluate_scoped_value")])
    prop("C14", "Instantiating types is a substitution",
         "Instantiating type parameters in a type or value replaces every parameter by its argument and nothing else, and unifying types gives a substitution that makes them equal.",
         ["inputs"], "every type and value, every list of parameters and arguments",
         "Nested function, data and dependent types combine without bound.",
         ["src/elaborator/acorn_type.rs", "src/elaborator/type_unifier.rs"],
         [("instantiation", "src/elaborator/acorn_type.rs: instantiate, genericize")])
    prop("C15", "Operations on expressions respect variable scopes",
         "Binding, inserting and shifting stack variables in an elaborated expression refer every variable to the same quantity before and after, below every kind of binder.",
         ["inputs"], "every elaborated expression, every stack size",
         "There is one case per expression form and an error needs a particular nesting of binders and a particular index.",
         ["src/elaborator/acorn_value.rs"],
         [("stack operations", "src/elaborator/acorn_value.rs: bind_values, insert_stack, expand_lambdas")])
    prop("C16", "Reordering a proof moves supports first and loses no step",
         "A clause supports an earlier one if it is a single positive literal that the earlier clause, having several literals, denies, or has several literals and contains the earlier clause's only literal. "
         "Reordering lists every clause exactly once, after all that support it, and otherwise as early as its place in the given order allows (always the first clause not yet listed whose supports are all listed); "
         "it reports that there is nothing to reorder exactly if no clause supports an earlier one. Proof steps and certificate claims are carried along whole in that order; "
         "a claim never moves past a step that is not a claim, and those stay where they are.",
         ["inputs"], "every list of clauses, proof steps and certificate steps",
         "The supports among clauses form arbitrarily many graphs; an order that loses a step or lists a support too late needs a particular one of them.",
         ["src/proof_order.rs", "src/prover/proof.rs", "src/certificate.rs"],
         [("the order", "src/proof_order.rs: unit_support_order"),
          ("applying it", "src/prover/proof.rs: reorder_concrete_steps_by_unit_support; src/certificate.rs: Certificate::reorder_claim_block, reorder_late_claim_supports")])
    prop("C17", "Goal buckets are fixed and filters select what they say",
         "The bucket of a goal is the number that the first eight bytes of SHA-256 over module, tab and goal name denote, modulo 100, so every goal is in exactly one of the hundred buckets, "
         "the same in every run and on every machine. A text names a filter exactly if it is a comma-separated list, blanks around entries and numbers aside, of bucket numbers and ranges start-end of bucket numbers with start at most end; "
         "everything else is refused. The filter selects exactly the buckets its entries name, is displayed as those entries in that order, and the displayed text is read back as the same filter. "
         "An evaluation restricted by a filter looks at exactly the goals whose bucket it selects.",
         ["inputs", "configurations"], "every module and goal name, every text given as a filter",
         "It must hold for every name and every text; the tests sample three names and a handful of filters.",
         ["src/goal_partition.rs", "src/builder.rs"],
         [("the bucket", "src/goal_partition.rs: goal_bucket"),
          ("filters", "src/goal_partition.rs: GoalBucketFilter, parse_bucket"),
          ("use in an evaluation", "src/builder.rs: Builder::eval_goal_in_sample")])
    prop("C18", "Positions in edited documents map back correctly",
         "Line and token lookups in a document answer for the text after every sequence of edits.",
         ["histories"], "every document and sequence of edits, with every mix of characters",
         "Edits with unusual characters and ranges combine without bound.",
         ["src/syntax/token_map.rs", "src/server/live_document.rs"],
         [("token map", "src/syntax/token_map.rs"), ("edits", "src/server/live_document.rs")])
    prop("C19", "Certificates survive being written and read",
         "Writing a certificate and reading it back gives the same certificate, and a certificate that was altered is either still a valid proof of the same goal or is rejected.",
         ["inputs"], "every certificate and every alteration of one",
         "Alterations and claims are unboundedly many.",
         ["src/certificate.rs", "src/claim_codec.rs"],
         [("codec", "src/claim_codec.rs"), ("certificate", "src/certificate.rs")])
    prop("C20", "Printing and parsing agree",
         "An expression or statement that is printed and parsed again gives the same tree, and every text is either parsed or rejected with an error at a position inside it.",
         ["inputs"], "every text and every syntax tree",
         "The grammar generates unboundedly many trees, and precedence errors need particular nestings of operators.",
         ["src/syntax/expression.rs", "src/syntax/token.rs"],
         [("parser", "src/syntax/expression.rs"), ("tokenizer", "src/syntax/token.rs")])
    prop("C21", "The build cache never serves stale results",
         "A cached result is used only for exactly the content it was made from, merging keeps every other entry, and a crash while saving leaves either the old or the new files.",
         ["crash_points", "histories"], "every history of builds, edits and interrupted saves",
         "It quantifies over crash points and histories of edits.",
         ["src/manifest.rs", "src/build_cache.rs"],
         [("manifest", "src/manifest.rs"), ("cache", "src/build_cache.rs")])
    prop("C23", "Inductive types are strictly positive",
         "An inductive definition is accepted only if the type being defined occurs in the arguments of its constructors in strictly positive positions only: never to the left of an arrow, however often, "
         "never in a value argument of a family, and never in a type argument that the datatype it is given to, or one that this one is built from, puts there, "
         "wherever that datatype is declared (in this file or another one, as a structure, an inductive type, a family or an alias). "
         "What a datatype does with its parameters is read off the types of its fields or constructor arguments, as a least fixed point if it uses itself; axiomatic types count as harmless, and so does a parameter a datatype makes no use of. "
         "A definition that is strictly positive in this sense is not refused for it.",
         ["programs"], "every chain of datatype definitions over any number of files, and every nesting of types",
         "One missed position makes an inconsistent type acceptable, and with it every theorem provable; the positions depend on chains of definitions that no test enumerates.",
         ["src/elaborator/environment/add_statement/datatypes.rs", "src/elaborator/acorn_type.rs", "src/elaborator/binding_map.rs"],
         [("the check", "src/elaborator/environment/add_statement/datatypes.rs: check_strict_positivity, check_type_arg_positivity, contains_inductive_type"),
          ("variances", "src/elaborator/acorn_type.rs: compute_variance_with_lookup, compute_type_arg_variance, Variance::merge; datatypes.rs: inductive_variances"),
          ("keeping them", "src/elaborator/binding_map.rs: DatatypeDefinition::import, get_datatype_variances")],
         theorems=["lemma_unfolded", "lemma_monotone"])
    prop("C22", "A checked proof proves the theorem",
         "Whenever the checker accepts a certificate for a goal, the goal follows from the facts visible at that point in the file.",
         ["programs"], "every program and every certificate",
         "It is a statement about all interpretations and all certificates.",
         ["src/kernel/checker.rs", "src/kernel/clausifier.rs", "src/elaborator/lowering.rs"],
         [("checker", "src/kernel/checker.rs: Checker"), ("clausifier", "src/kernel/clausifier.rs")])
