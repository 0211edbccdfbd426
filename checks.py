"""what decides each property"""
S = "Solver."
C = "CoreModule."
BOUNDED = "bounded stand-in for contracts: the postcondition evaluated on generated grammars and texts against an independent enumeration of all derivations (bounded, not proved)"
BNOTE = "Bounded, not proved: random grammars of 1-4 categories with words, expressions, optional parts, and texts of up to 9 characters (C11 also up to 40)."
EP = "EarleyParser."
PARSER = (["GrammarRules.find_rules", "GrammarRules.find_argument_counts", "RuleConstituent.equals", "ChartState.is_terminal", "ChartState.is_complete"]
          + ["Chart." + x for x in "__init__ enqueue index_completed_state build_incomplete_gamma_state build_complete_gamma_state".split()]
          + [EP + x for x in "predict perform_regexp read_word add_scanned_state scan complete buildChart parse".split()]
          + "find_state_sequences find_child_state_sequences create_permutations create_trees_for_states create_trees_for_state extract_tree_roots find_unknown_word".split())
CHECKS = {
    "C01": dict(level="proof", contracts={"solver": [S + "solve", S + "solve_single", S + "solve_disjunction"]}, search="c01"),
    "C02": dict(level="proof", contracts={"solver": [S + "create_solve_single_results", S + "solve_single"]}, search="c02"),
    "C03": dict(level="proof", contracts={"solver": ["Model.find_relations", S + "model_values_2_db_values", S + "find_relation_values", S + "write_atom"]}, search="c03"),
    "C04": dict(level="proof", contracts={"coremod": [C + x for x in "count sum avg percentage arg_min arg_max find_all find_one".split()]}, search="c04"),
    "C05": dict(level="proof", contracts={"coremod": [C + x for x in "equals greater_than less_than multiply let not_function determiner_none scoped determiner_equals determiner_greater_than determiner_less_than determiner_all".split()]}, search="c05"),
    "C06": dict(level="proof", contracts={"inference": ["get_atom_variables", "get_atoms_variables", "InferenceRule.get_all_variables", "InferenceModule.solve_rule", "InferenceModule.handle_rule"]}, search="c06"),
    "C07": dict(level="proof", contracts={"inference": ["bind_variables", C + "store", "InferenceModule.insert_rule", "InferenceModule.learn_rule"]}, search="c07"),
    "C08": dict(level="proof", contracts={"rules": ["SimpleInferenceRuleParser." + x for x in "parse_token eat_trailing_comments parse_identifier parse_atoms parse_grouped_atoms parse_ungrouped_atoms parse_disjuncted_atom parse_atom parse_simple_atom parse_term parse_rule parse".split()] + ["InferenceModule.import_rules"]}, search="c08"),
    "C09": dict(level="proof", contracts={"grammar": ["GrammarRules." + x for x in "create_rule_variants_rest create_rule_variants add_rule find_rules find_argument_counts".split()] + ["GrammarModule.learn_grammar_rule"]}, search="c09"),
    "C10": dict(level="proof", contracts={"earley": PARSER}, search="c10", cases=16000),
    "C11": dict(level="proof", contracts={"earley": PARSER}, search="c11", cases=16000),
    "C22": dict(level="exploration", contracts={}, technique=BOUNDED, note=BNOTE, trust="", search="c22", cases=24000, seconds=25),
    "C12": dict(level="proof", contracts={"rank": ["SortByBoost.get_boost", "SortByBoost.sort", "SortByRegExpCount.count_tokens", "SortByRegExpCount.sort", "SortByTreeDepth.get_depth", "SortByTreeDepth.sort", "BasicParseTreeSortHeuristics.sort_trees"]}, search="c12"),
    "C13": dict(level="proof", contracts={"composer": ["VariableGenerator.next", "VariableGenerator.isinstance"] + ["SemanticComposer." + x for x in "unify_variables create_map extend_map_with_semantics compose check_for_sem process".split()], "composer_fresh": []}, search="c13"),
    "C14": dict(level="proof", contracts={"template": ["replace", "apply"]}, search="c14"),
    "C15": dict(level="proof", contracts={"optim": ["FrontResolveName.extract_list", "FrontResolveName.extract_tuple", "FrontResolveName.sort", "get_atom_variables", "SortByCost.calculate_cost", "SortByCost.sort_rest", "SortByCost.sort", "SortByCost.sort_arguments", "IsolateIndependentParts.restore_atom_order", "IsolateIndependentParts.collect_batches", "IsolateIndependentParts.isolate", "BasicQueryOptimizer.optimize"]}, search="c15"),
    "C16": dict(level="proof", contracts={"blocks": ["FindOne.process", "FindAll.process", "TryFirst.process", "Succeed.process", "LanguageSelector.process", "Multilingual.process", "System.enter"]}, search="c16"),
    "C17": dict(level="proof", contracts={"store": ["SimpleDataSource." + x for x in "create_dict insert clear select".split()]}, search="c17"),
    "C18": dict(level="proof", contracts={"sql": "Sqlite3DataSource.select MySqlDataSource.select PsycoPg2DataSource.select PsycoPg3DataSource.select Sqlite3DataSource.insert Sqlite3DataSource.delete SomeDataSource.select_column SimpleMemoryModule.query SimpleMemoryModule.write".split()}, search="c18"),
    "C19": dict(level="proof", contracts={"sparql": ["SparqlDataSource." + x for x in "prepare_term prepare_variables prepare_text_variables create_query prepare_results do_select select".split()]}, search="c19"),
    "C20": dict(level="proof", contracts={"generator": ["BasicGenerator." + x for x in "find_rule get_consequent_values generate_single_consequent generate_node generate_output".split()] + ["BasicOutputBuffer.clear"]}, search="c20"),
    "C21": dict(level="proof", contracts={"executor": ["SemanticComposerProduct.get_semantics_last_iteration", "AtomExecutor.process", "BasicDialogContext.with_context", "BasicDialogContext.start_context", "BasicDialogContext.end_context"]}, search="c21"),
}

NOT_APPLICABLE = {}
