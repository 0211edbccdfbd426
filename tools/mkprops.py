"""Writes properties.jsonl (one place to edit the statements)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

S = "richard/core/Solver.py"
prop("C01", "A query returns exactly the ordered join of its atoms",
 "Solving a list of atoms under a starting binding returns exactly the bindings obtained by solving the first atom and then, for each of its bindings in order, solving the remaining atoms under that binding; with two or more atoms every binding is listed once, in order of first derivation, and an empty list of atoms returns just the starting binding. A disjunction atom returns the results of its first alternative that has any. The caller's atoms and starting binding are never modified, and a query that is not a list is refused with an exception.",
 ["inputs", "programs"], "all lists of atoms, all starting bindings, all relations (any deterministic rows)",
 "Solver_test solves eight fixed queries over two tables of two rows; no query in it has duplicate derivations, three atoms with sharing, or a disjunction with an empty first branch.",
 [S], [("recursive join with duplicate suppression", S + ": Solver.solve"), ("single atom dispatch, disjunction", S + ": Solver.solve_single, solve_disjunction")],
 observe=["return value of Solver.solve"])
prop("C02", "Matching a row against an atom binds variables consistently",
 "For each row a relation returns for an atom, in order, there is one resulting binding: it contains everything of the incoming binding unchanged and binds every other variable of the atom to the row's value at that variable's position. A row is dropped exactly when a constant argument differs from a non-None row value, or a not yet bound variable that occurs twice would get two different values; a first row that is not a list or has the wrong number of values is refused with an exception. The incoming binding object and the rows are not modified and results do not share state with each other.",
 ["inputs"], "all row lists, all argument lists (variables, constants, repeated variables), all incoming bindings",
 "The tests sample one repeated-variable query and two constant mismatches; None-valued columns combined with repeated variables and pre-bound variables are not sampled.",
 [S], [("row unification", S + ": Solver.create_solve_single_results"), ("row shape checks", S + ": Solver.solve_single")],
 observe=["return value of Solver.solve / solve_single"])
prop("C03", "Queries and stores reach every relation with the predicate",
 "Querying an atom calls every relation with that predicate, over all modules of the model in module order, passing for each argument its bound value, its constant, or None when unbound, and returns all their rows in order with repeated rows removed. Storing an atom calls the write function of every writable relation with that predicate exactly once with the atom's arguments. A predicate no module defines is refused with an exception for both, and an iterator result is passed on untouched only when its relation is the only one with that predicate.",
 ["inputs", "configurations"], "all models (any number of modules, relations with or without query/write functions), all atoms and bindings",
 "The unit tests use one module per predicate, so neither the union over modules, its order, its duplicate removal nor multi-module writes are exercised.",
 [S, "richard/core/Model.py", "richard/interface/SomeModule.py"],
 [("union over relations", S + ": Solver.find_relation_values"), ("argument values", S + ": Solver.model_values_2_db_values"), ("module scan", "richard/core/Model.py: Model.find_relations"), ("write dispatch", S + ": Solver.write_atom")],
 observe=["calls received by query and write functions", "return value of Solver.solve"])
C = "richard/module/CoreModule.py"
prop("C04", "Aggregates compute the true aggregate of the body's results",
 "Let B be the results of an aggregate's body under the current binding, solved exactly once per body. count gives the number of B; sum the total of the element variable over B (0 when B is empty); avg that total divided by the number of B, percentage 100 times the ratio of the two bodies' result counts, and both fail when they would divide by an empty result; arg_min / arg_max give the first result with the smallest / largest element value together with that value, and fail when B is empty. find_all lists the distinct values (or value tuples, None for an unbound variable) of the requested variables in order of first occurrence, and find_one gives the first of that list and fails when it is empty.",
 ["inputs"], "all result lists of the body (any length, duplicates, ties), all element variables, single or list-valued variable arguments",
 "The dialog demos exercise each aggregate on one data set without ties, empty bodies or duplicate values.",
 [C], [("aggregation loops", C + ": count, sum, avg, arg_min, arg_max, percentage, find_all, find_one")],
 observe=["rows returned by the aggregate predicates"])
prop("C05", "Logical and comparison predicates follow their truth conditions",
 "not and none succeed exactly when their body has no result and scoped exactly when it has at least one; det_equals, det_greater_than and det_less_than succeed exactly when the number of body results equals, exceeds or is below the given number; all succeeds exactly when the range is non-empty and the body holds under every distinct range entity, and then yields each of those entities once in range order; success of the others exports no variables. equals of one unbound argument binds it to the other, of two bound arguments is equality and of two unbound ones is an error; greater_than and less_than are strict and refuse unbound arguments; let binds its first argument to its second; multiply gives the product.",
 ["inputs"], "all body results and counts, all argument values including unbound ones",
 "Quantifier_test samples one table for two determiners; boundary counts, failing range entities in the middle and duplicate range entities are not sampled.",
 [C, "richard/type/OrderedSet.py"], [("quantifier predicates", C + ": not_function, determiner_*, scoped"), ("comparisons", C + ": equals, greater_than, less_than, multiply, let"), ("ordered set", "richard/type/OrderedSet.py")],
 observe=["rows returned by the predicates"])
I = "richard/module/InferenceModule.py"
prop("C06", "Applying an inference rule is sound unification with the rule head",
 "Calling a predicate with rules returns, rule by rule in order of definition, one row for each solution of the rule's body; a rule whose head constants contradict the call's bound arguments, or whose repeated head variable would get two different values, contributes nothing. The body is solved with the head variables bound to the call's bound arguments, with no caller binding of any variable that the rule itself uses, and with the caller's other bindings intact; in each row an argument passed as an unbound or bound variable gets the head constant or the solved head variable, and a constant argument is returned as it was. A rule with an unresolved head variable contributes no row.",
 ["inputs", "programs"], "all rule sets, all call arguments and caller bindings",
 "InferenceEngine_test samples one family database; repeated head variables, caller variables that share names with rule variables and bound constants are sampled in a few combinations only.",
 [I, "richard/type/InferenceRule.py", "richard/core/atoms.py"], [("rule application", I + ": solve_rule, handle_rule"), ("rule variables", "richard/type/InferenceRule.py: get_all_variables")],
 observe=["rows returned by a rule-defined predicate"])
A = "richard/core/atoms.py"
prop("C07", "Storing facts and learning rules substitutes the current bindings",
 "When atoms are stored or a rule is learned, every variable bound in the current binding is replaced by its value at any depth of lists and tuples, every unbound variable and every other value is kept, and the structure is unchanged; store then writes each resulting atom once, in order. A learned rule is added after the rules already known for its predicate, changes no other predicate's rules, and is used by queries from then on; a rule head that is not a single atom, or a store argument that is not a list, is refused. The atoms given by the caller are not modified.",
 ["inputs", "histories"], "all nested atom structures, all bindings, all sequences of learned rules",
 "The demos store flat atoms with at most one bound variable and learn rules once per predicate.",
 [A, C, I], [("substitution", A + ": bind_variables"), ("store", C + ": store"), ("rule base", I + ": insert_rule, learn_rule")],
 state=[("InferenceModule.rules", "rules per predicate in order of definition", I)],
 observe=["atoms received by write functions", "rows of learned predicates"])
R = "richard/module/helper/SimpleInferenceRuleParser.py"
prop("C08", "Rule text parses to exactly the rules it spells, or is refused",
 "Parsing the text of a sequence of facts and rules (atoms whose terms are variables, integers including 0, decimal numbers, quoted strings or nested bodies (in parentheses, or as the last term), with a comma after a last term in parentheses or that is no body allowed; bodies that are one parenthesised body or comma-separated atoms and parenthesised disjunctions; comments anywhere between tokens) yields exactly those rules, in order. Text that is not such a sequence yields no rules but an error position, never a partial list of rules and never a crash.",
 ["inputs"], "all token sequences (at the token level: proof); text level up to the stated bound",
 "InferenceEngine_test parses ten fixed one-rule texts, none with 0 as a term, a disjunction, two rules in one text, or malformed or truncated input.",
 [R], [("recursive descent over tokens", R + ": parse, parse_rule, parse_atoms, parse_term ..."), ("tokenizer", R + ": re_tokens")],
 observe=["return value of SimpleInferenceRuleParser.parse"])
G = "richard/entity/GrammarRules.py"; GP = "richard/processor/parser/helper/SimpleGrammarRulesParser.py"
prop("C09", "A grammar rule is compiled to exactly its optional variants and found again",
 "A rule with optional constituents is expanded to the variants in which each optional part (with the separator it brings along) is either present or absent, with presence listed first, all other constituents kept in order and every other attribute of the rule unchanged; a rule without optional parts has one variant, itself. Adding a rule, at start or learned later, appends its variants under its category and number of arguments and changes no other entry; looking up a category with a number of arguments returns exactly the variants added for it, in order, and nothing for an unknown one. The rule that is added is itself not modified.",
 ["inputs", "histories"], "all rules (any number and position of optional and separator constituents), all sequences of additions and lookups",
 "test_rules_parser checks six fixed rules with at most one optional constituent each.",
 [G, GP, "richard/module/GrammarModule.py"], [("variant expansion", G + ": create_rule_variants_rest, create_rule_variants"), ("index", G + ": add_rule, find_rules, find_argument_counts"), ("learning", "richard/module/GrammarModule.py: learn_grammar_rule")],
 state=[("GrammarRules.index", "category -> argument count -> variants", G)],
 observe=["GrammarRules.find_rules", "parses possible after learn_grammar_rule"])
EP = "richard/processor/parser/earley/EarleyParser.py"; TX = "richard/processor/parser/earley/tree_extract.py"
prop("C10", "Every parse tree is a derivation of exactly the input text",
 "For a grammar without empty or cyclic rules, every tree the parser returns is rooted in the sentence category and spans the whole text; each inner node applies a rule of the grammar whose constituents match its children one by one (same category, same number of arguments, same kind), and the children's spans are adjacent and cover the node's span. Each leaf is either a word of its rule that equals the text at that place up to letter case, or text that the leaf's regular expression matches at that place or matches in full. When no tree is returned an error is reported, and none is reported otherwise.",
 ["inputs", "programs"], "all grammars without empty constituents and all texts",
 "The tests parse a handful of sentences and compare one printed tree; nothing checks spans, rule conformance or that a regexp leaf matches its expression.",
 [EP, TX, "richard/processor/parser/earley/entity/Chart.py", "richard/processor/parser/earley/entity/ChartState.py"],
 [("chart invariant", EP + ": predict, scan, complete, buildChart"), ("tree extraction", TX), ("error choice", EP + ": parse")],
 state=[("Chart.states", "states per end position", "richard/processor/parser/earley/entity/Chart.py"), ("Chart.completed_states", "completed states by end position", "richard/processor/parser/earley/entity/Chart.py")],
 observe=["ProcessResult of EarleyParser.parse"])
prop("C11", "Parsing leaves the grammar and earlier results as they were",
 "Parsing any sequence of texts with one grammar gives for each text the same trees, in the same order, and the same error as parsing it first; parsing never changes which rules the grammar holds for any category that the grammar's author defined, and does not make the grammar grow from one parse to the next.",
 ["histories", "inputs"], "all grammars, all sequences of texts parsed with them",
 "Every parser test builds a new grammar and parses one or two sentences; nothing looks at the grammar afterwards.",
 [EP, G, "richard/processor/parser/BasicParser.py"], [("start rules", EP + ": buildChart"), ("rule index", G)],
 observe=["GrammarRules.find_rules before and after", "ProcessResult of repeated parses"])
H = "richard/processor/parser/tree_sort_heuristics/"
prop("C12", "Parse tree ranking is a stable permutation by boost, regexp count, depth",
 "Ranking parse trees returns exactly the trees given, each once, ordered by higher total boost first, then by fewer regular-expression leaves, then by greater depth, trees that are equal on all three staying in the order they had. Total boost is the sum of the boosts of all rules used in the tree, depth the length of the longest path, and the regular-expression count the number of nodes read by regular expression.",
 ["inputs"], "all lists of parse trees, all tree shapes and boosts",
 "No test ranks two trees that differ in boost, regexp count and depth at once; the demos only observe the first tree.",
 [H + "BasicParseTreeSortHeuristics.py", H + "SortByBoost.py", H + "SortByRegExpCount.py", H + "SortByTreeDepth.py"],
 [("stable sorts in order of increasing priority", H + "BasicParseTreeSortHeuristics.py"), ("scores", H + "SortByBoost.py: get_boost; SortByRegExpCount.py: count_tokens; SortByTreeDepth.py: get_depth")],
 observe=["order of BasicParser products"])
SC = "richard/processor/semantic_composer/SemanticComposer.py"
prop("C13", "Composition renames rule variables consistently and without capture",
 "In composing the meaning of a parse tree, the variables of each rule application are replaced consistently, wherever they occur in its semantics, inferences and executable atoms and at any nesting depth: a variable of the rule's head by the variable its parent uses at that position, a variable that two constituents share by one common variable, and every other variable of the rule's syntax or of the top level of its semantics by a variable that is used nowhere else in the dialog. Variables that have already been given a dialog-wide name are never renamed again, reified variables become the name of the variable that replaces them, and everything else is left as it was.",
 ["inputs", "programs", "histories"], "all parse trees and rule semantics, all sequences of sentences composed by one composer",
 "Composer_test checks two sentences; no rule there has a private variable in two constituents, nested terms, or a second sentence in the same dialog.",
 [SC, "richard/processor/semantic_composer/helper/VariableGenerator.py"],
 [("variable map", SC + ": create_map, extend_map_with_semantics"), ("renaming", SC + ": unify_variables"), ("recursion", SC + ": compose"), ("fresh names", "richard/processor/semantic_composer/helper/VariableGenerator.py")],
 state=[("VariableGenerator.number", "number of names handed out in the dialog", "richard/processor/semantic_composer/helper/VariableGenerator.py")],
 observe=["SemanticComposerProduct"])
GF = "richard/processor/parser/helper/grammar_functions.py"
prop("C14", "Applying a semantic template substitutes its slots everywhere",
 "Applying a template to values replaces every occurrence of each slot's placeholder in the template's body, at any depth of lists and tuples, by the atoms of the value given for that slot, spliced in place and in order, and leaves everything else and the nesting of lists and tuples unchanged (for values that contain no placeholders themselves). The template and the values are not modified and can be applied again with the same outcome.",
 ["inputs"], "all template bodies, all numbers of slots and values",
 "Composer_test and the demos use templates with one or two slots, each at the top level or one level deep.",
 [GF, "richard/type/SemanticTemplate.py"], [("apply / replace recursion", GF)],
 observe=["return value of apply"])
O = "richard/processor/semantic_composer/optimizer/"
prop("C15", "Query optimisation keeps every atom and never splits connected atoms",
 "Optimising a query returns a query with exactly the same atoms, each as often as before (not counting the 'scoped' wrappers that isolation adds). Name resolution atoms move to the front and all others keep their relative order; cost ordering outputs at each step the cheapest remaining atom given what is already bound, keeping the order of equally cheap ones. After isolation, two atoms that share a variable not occurring in the atom before them at that level are in the same part, atoms of one part keep their order, and no part containing an answer variable that does not occur in the first atom is wrapped at the top level; the input query is not modified.",
 ["inputs"], "all queries (any number of atoms, repeated atoms, nested argument lists), all sets of answer variables, all relation sizes",
 "IsolateIndependentParts_test checks six queries of at most five distinct atoms; the other two steps are only run inside the demos.",
 [O + "BasicQueryOptimizer.py", O + "FrontResolveName.py", O + "SortByCost.py", O + "IsolateIndependentParts.py"],
 [("name resolution first", O + "FrontResolveName.py"), ("cost ordering", O + "SortByCost.py"), ("independent parts", O + "IsolateIndependentParts.py")],
 observe=["semantics iterations of the composer product"])
B = "richard/block/"
prop("C16", "Pipeline blocks try alternatives as documented and report the first error",
 "A block passes on its processor's error. Otherwise it makes each alternative current and runs the next block on it: find-one in order until the first success, find-all for every alternative, and try-first only for the first; it succeeds exactly when one of the alternatives it tried succeeded (also with no alternative at all), and otherwise reports the error and its arguments of the first alternative that failed. Alternatives are recorded on the request, find-all accumulating those of all invocations, and the current alternative of each block when the end of the pipeline is reached is the one being tried.",
 ["inputs", "configurations"], "all pipelines of these blocks, all sequences of alternatives and of successes and failures",
 "The tests run pipelines in which at most one block has more than one alternative and nothing fails after a success, or with two different errors.",
 [B + "FindOne.py", B + "FindAll.py", B + "TryFirst.py", B + "Succeed.py", "richard/entity/SentenceRequest.py", "richard/core/System.py", "richard/processor/language_selector/Multilingual.py"],
 [("search strategies", B), ("linking of blocks and error output", "richard/core/System.py"), ("bookkeeping", "richard/entity/SentenceRequest.py")],
 state=[("current_products, alternative_products", "interpretation per processor", "richard/entity/SentenceRequest.py")],
 observe=["BlockResult", "SentenceRequest", "System.enter"])
D = "richard/data_source/"
prop("C17", "The in-memory store returns exactly the matching records",
 "After any sequence of inserts and clears, selecting columns with values from a table returns, for each record inserted in that table since the last clear and in insertion order, the record's values of those columns, exactly when no value of the record differs from a value given for the same column that is not None (a column the record has no value for agrees with everything); a table never inserted into gives no rows. A value that was inserted as None or left out is returned as None. Inserting in one table does not affect another, and the lists passed in and returned are not shared with the store.",
 ["histories", "inputs"], "all sequences of insert / clear / select, all column and value lists",
 "No unit test covers this store; the demos use it as output buffer with one or two rows.",
 [D + "SimpleDataSource.py", "richard/module/BasicOutputBuffer.py"], [("select / insert / create_dict / clear", D + "SimpleDataSource.py")],
 state=[("store", "records per table", D + "SimpleDataSource.py")], observe=["SimpleDataSource.select"])
prop("C18", "SQL access asks for exactly the given columns and passes values as parameters",
 "A select issues one statement over the given table for the given columns in their order, with one equality condition per value that is not None, in column order, and passes exactly those values, in the same order, as parameters and never as statement text; it returns every row of the answer as a list, in order. An insert issues one statement naming all columns with one placeholder per value and passes all values as parameters in order; a delete has one condition per column and passes the values as parameters.",
 ["inputs"], "all tables, column lists and value lists (any values, including text with quotes), all answers of the database; the sqlite, MySQL and both PostgreSQL back ends",
 "Each back end's test selects once with one value (and the MySQL and PostgreSQL tests skip when no server is running).",
 [D + "Sqlite3DataSource.py", D + "MySqlDataSource.py", D + "PsycoPg2DataSource.py", D + "PsycoPg3DataSource.py", "richard/interface/SomeDataSource.py", "richard/module/SimpleMemoryModule.py"],
 [("statement building", D), ("column projection", "richard/interface/SomeDataSource.py: select_column")],
 observe=["statement and parameters received by cursor.execute", "returned rows"])
prop("C19", "SPARQL access builds the right query, keeps text literal and caches safely",
 "A select asks for one triple with the table as predicate whose subject and object are a variable for None, an IRI for an id, the bare constant for a constant and otherwise a language-tagged string literal that denotes exactly the given text whatever characters it contains; it asks for exactly the unknown terms, filters unknown texts by language, and each answer becomes one row with the known values in place and the unknown ones filled in, in order. With a result cache, a repeated select gives the same rows as the first without asking again; a cache entry that is missing, unreadable, or cut off by a crash while it was written does not make a select fail but is treated as absent.",
 ["inputs", "crash_points"], "all terms and columns, all answers, all contents of the cache file including truncated ones",
 "The Wikidata demo runs entirely from a recorded cache, so no query is ever built or sent by the tests, and the cache files are all intact.",
 [D + "SparqlDataSource.py", D + "WikidataDataSource.py"], [("query construction", D + "SparqlDataSource.py: prepare_*, create_query"), ("cache", D + "SparqlDataSource.py: select")],
 observe=["query sent to the endpoint", "rows returned"])
BG = "richard/core/BasicGenerator.py"
prop("C20", "Generated output follows a write rule whose condition holds, with its bindings",
 "The output for a category is produced by a rule of the write grammar for that category and number of arguments: the first in grammar order that has no condition, or whose condition has a solution extending the argument values, and that has not been used before in this output, or else the last one that has been used but applies; rules with the same syntax count as one in this. Its constituents are rendered in order with the argument values and the first solution of that rule's own condition: words as they are, values and texts from their variable, formats by the rule's format function and categories recursively; texts are concatenated and then post-processed by the rule. Reading the output empties the output buffer, also when generation fails, and no applicable rule is an error unless the constituent is optional.",
 ["inputs", "programs", "histories"], "all write grammars, all contents of the output buffer, all sequences of sentences",
 "Generator_test renders four fixed outputs in which no category is rendered twice and no two rules compete.",
 [BG, "richard/module/BasicOutputBuffer.py"], [("rule choice", BG + ": find_rule"), ("rendering", BG + ": generate_node, generate_single_consequent, get_consequent_values"), ("clearing", BG + ": generate_output")],
 observe=["BasicGenerator.generate_output"])
BD = "richard/module/BasicDialogContext.py"
prop("C21", "The executor runs inferences, then commands, then the query, once each",
 "Executing a sentence's composition first stores each inference exactly once and in order, then runs the executable atoms once, then solves the last optimised form of the meaning once, and its product carries exactly those bindings. A context started for the duration of a body is active while the body runs (unless the body itself ends it) and inactive afterwards, also when the body fails or raises.",
 ["inputs", "histories"], "all compositions (any number of inferences, executable atoms and optimisation steps), all bodies",
 "AtomExecutor_test runs one sentence with one inference and one with one executable atom.",
 ["richard/processor/semantic_executor/AtomExecutor.py", "richard/processor/semantic_composer/SemanticComposerProduct.py", BD],
 [("execution order", "richard/processor/semantic_executor/AtomExecutor.py: process"), ("context bracket", BD + ": with_context")],
 observe=["calls on the model", "AtomExecutorProduct.bindings"])
prop("C22", "Every derivation of the text is found by the parser",
 "For a grammar without empty or cyclic rules, whenever the text has a derivation from the sentence category the parser returns a tree for it; the number of trees equals the number of distinct derivations. A regular expression may read what it matches at that place, or the beginning of that when this matches in full; rules with the same syntax count as one.",
 ["inputs", "programs"], "all grammars without empty and cyclic rules, all texts",
 "EarleyParser_test counts the trees of one ambiguous sentence for one grammar.",
 [EP, TX], [("chart closure", EP + ": buildChart"), ("extraction of all sequences", TX)], observe=["ProcessResult of EarleyParser.parse"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
import re
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
    if n > 3: print(p["id"], "sentences:", n)
