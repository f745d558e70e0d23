#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing)."""
import json
L = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p("P01", "Interval sets behave as mathematical sets of integers",
  "After any sequence of range/element additions, removals, unions, subtractions and complements, a set reports membership, size, minimum and display exactly as the mathematical set built by the same operations, and two sets compare equal exactly when they have the same elements.",
  ["inputs", "histories"], "all operation sequences and all argument values (checked: up to 5 updates, values -2..9)",
  "The four unit tests use one fixed pair of intervals each; whether merging, splitting and skipping neighbours is right depends on the relative order of every endpoint.",
  ["src/interval_set.rs"], [("sorted disjoint interval list with merging insertion", "src/interval_set.rs IntervalSet::add_interval, substract, remove_one")],
  ["contains, length, get_min, to_index_string, =="],
  [("intervals", "sorted list of disjoint closed ranges", "src/interval_set.rs IntervalSet")])

p("P02", "Input streams report exactly the symbols and text they were given",
  "For every text or symbol sequence, every position and every offset, looking ahead or back in an input stream returns the symbol of the underlying input at that place (end-of-file outside it), consuming and seeking move by whole symbols, and the text of any span is exactly the text of those symbols. This is the same for borrowed and owned streams and for every symbol width.",
  ["inputs", "histories"], "all strings and 8/16/32-bit symbol sequences, all positions and offsets (checked: up to 4 symbols, all code points)",
  "Tests use a handful of fixed strings; multi-byte character boundaries, look-behind and spans at the ends are combinations no fixed string covers.",
  ["src/input_stream.rs", "src/char_stream.rs", "src/int_stream.rs"],
  [("per-width lookahead and text extraction", "src/input_stream.rs InputStream, src/char_stream.rs InputData")],
  ["la, consume, seek, index, size, get_text, iteration"])

p("P03", "Buffered and unbuffered token streams behave as the token sequence",
  "For every token sequence and every history of consume, mark, release, seek and look-around operations, a token stream shows exactly the tokens its source produced, in order, ending in an end-of-file token that is repeated for ever. Seeking anywhere inside a mark restores exactly what was visible there, and text of a token range is the concatenation of those tokens' texts.",
  ["inputs", "histories"], "all token sequences and operation histories (checked: up to 3 tokens, 6 operations)",
  "Tests drive streams only through one parse of one input; window refills, releases and reseeks in other orders are never executed.",
  ["src/token_stream.rs"], [("lookahead window with markers", "src/token_stream.rs UnbufferedTokenStream, TokenStream")],
  ["lt, la, consume, mark, release, seek, index, get_text, iteration"])

p("P04", "The common token stream hides exactly the off-channel tokens",
  "For every sequence of tokens on any channels and every history of operations, a channel-filtered token stream shows its user exactly the tokens on its channel plus end-of-file, in order, when looking ahead, looking back, consuming or seeking anywhere (to a hidden token means to the next visible one). Hidden tokens stay part of the stream's text.",
  ["inputs", "histories"], "all token/channel sequences and operation histories (checked: up to 5 tokens, 5 operations)",
  "Tests have off-channel tokens only between two visible ones, if at all; leading, trailing and adjacent hidden tokens with look-behind are not reached.",
  ["src/common_token_stream.rs", "src/token_stream.rs"], [("skipping to the next/previous token on the channel", "src/common_token_stream.rs CommonTokenStream")],
  ["lt, la, consume, seek, index, get_text"])

p("P05", "The lexer splits every input by longest match, then first rule",
  "For every lexer grammar and every input, the tokens produced are those of repeatedly taking the longest prefix any rule of the current mode matches (a non-greedy loop stops as early as its rule allows; ties go to the rule written first), and input no rule matches is reported as one error and skipped. Each token carries the exact type, text, start/stop offsets, line and column of its characters, and the input ends in one end-of-file token.",
  ["inputs", "programs"], "all lexer grammars and inputs (checked: hand-picked grammars and an enumerated family of small grammars, inputs up to 6 symbolic characters)",
  "Tests lex a few fixed files; whether maximal munch, ties, loops, wildcards, sets, end-of-file and positions are right for every input is a quantification over inputs.",
  ["src/lexer_atn_simulator.rs", "src/lexer.rs", "src/atn_config_set.rs", "src/transition.rs", "src/atn_deserializer.rs"],
  [("ATN simulation with a DFA cache", "src/lexer_atn_simulator.rs LexerATNSimulator::match_token, exec_atn, closure"),
   ("token loop, position tracking and error recovery", "src/lexer.rs BaseLexer::next_token, emit, recover")],
  ["tokens returned by the lexer and errors given to its listeners"])

p("P06", "Lexer commands, actions and predicates take effect exactly as written",
  "For every input, the skip, more, type, channel, mode, push-mode and pop-mode commands and custom actions of the alternative that matched - and of no other - run in order, with custom actions in the middle of a rule seeing the position they are written at, and predicates see the position they are written at and exclude their alternative exactly when false. Tokens an action supplies or modifies are the ones returned.",
  ["inputs", "programs"], "all inputs and command combinations (checked: hand-picked grammars using every command, up to 6 symbolic characters)",
  "Tests use a mode lexer on one XML text; interplay of commands with longest match, caching and position tracking is only visible on inputs they do not contain.",
  ["src/lexer_atn_simulator.rs", "src/lexer_action_executor.rs", "src/lexer_action.rs", "src/lexer.rs"],
  [("action executor carried by configurations", "src/lexer_action_executor.rs LexerActionExecutor::execute"), ("mode stack", "src/lexer.rs BaseLexer::push_mode, pop_mode")],
  ["tokens returned, calls of the generated action/predicate functions"])

p("P07", "What a lexer has seen before never changes its tokens",
  "For every two inputs, lexing the second with a lexer whose cached automaton was filled by the first gives exactly the tokens, errors and action calls that a fresh lexer gives.",
  ["inputs", "histories"], "all pairs of inputs and grammars (checked: hand-picked grammars, 2-3 symbolic characters each)",
  "Cached automata are shared between lexers for the life of a program; the tests look at the first use or at the same input again.",
  ["src/lexer_atn_simulator.rs", "src/dfa.rs", "src/dfa_state.rs"],
  [("edges and states added to the shared DFA", "src/lexer_atn_simulator.rs LexerATNSimulator::add_dfastate, add_dfaedge")],
  ["tokens and errors of two lexers sharing one automaton cache"])

p("P08", "A parser reports no syntax error exactly for sentences of its grammar",
  "For every grammar and every token sequence, parsing from the start rule with the default error strategy always returns a tree, and reports no syntax error if and only if the sequence is a sentence of the grammar; when it reports none, every token has been consumed.",
  ["inputs", "programs"], "all grammars and token sequences (checked: 12 hand-picked grammars and 1568 enumerated ones, inputs up to 7 tokens)",
  "Tests parse a few fixed texts that are all valid; acceptance must be right for every token sequence, and depends on lookahead of any length, context merging and the call stack.",
  ["src/parser_atn_simulator.rs", "src/parser.rs", "src/prediction_context.rs", "src/atn_config_set.rs", "src/ll1_analyzer.rs", "src/error_strategy.rs"],
  [("adaptive LL(*) prediction with SLL then full-context simulation", "src/parser_atn_simulator.rs ParserATNSimulator::adaptive_predict, exec_atn, exec_atn_with_full_context, closure"),
   ("token matching and synchronisation", "src/parser.rs BaseParser::match_token, src/error_strategy.rs DefaultErrorStrategy::sync, recover_inline")],
  ["errors given to the parser's listeners, result of the rule method, token stream position"])

p("P09", "The parse tree of valid input takes the first alternative that can succeed",
  "For every grammar and every sentence, every decision the parser takes is the lowest-numbered alternative with which the rest of the whole input can still be derived (for a non-greedy element: leaving before iterating), and the parse tree is exactly that derivation. Hidden-channel tokens, whether the token stream buffers everything or only a window, and how grammar rules share prefixes make no difference to it.",
  ["inputs", "programs"], "all grammars and token sequences (checked: 12 hand-picked grammars and 1568 enumerated ones, inputs up to 9 tokens)",
  "A wrong prediction shows only on inputs that need exactly the lookahead or context that was lost; the tests contain a few ambiguous or deep-lookahead texts at most.",
  ["src/parser_atn_simulator.rs", "src/prediction_context.rs", "src/prediction_mode.rs", "src/atn_config_set.rs", "src/parser.rs"],
  [("conflict detection and resolution to the minimum alternative", "src/prediction_mode.rs PredictionMode::has_sll_conflict_terminating_prediction, resolves_to_just_one_viable_alt"),
   ("merging of call-stack contexts", "src/prediction_context.rs PredictionContext::merge")],
  ["alternatives predicted at each decision, the returned parse tree"])

p("P10", "Left-recursive rules group operators by precedence and associativity",
  "For every left-recursive rule and every sentence of it, operators are grouped in the tree by the order of their alternatives (earlier binds tighter) and by their associativity, exactly as precedence climbing does.",
  ["inputs", "programs"], "all operator tables and inputs (checked: 8 hand-picked rules and enumerated tables of 3 operators, inputs up to 7 tokens)",
  "The tests evaluate a few arithmetic texts; interplay of precedence predicates with full-context prediction, prefix operators of low precedence and right associativity needs all combinations.",
  ["src/parser_atn_simulator.rs", "src/parser.rs", "src/semantic_context.rs", "src/parser_rule_context.rs"],
  [("precedence predicates and the precedence filter", "src/parser_atn_simulator.rs ParserATNSimulator::apply_precedence_filter, src/semantic_context.rs"),
   ("recursion contexts", "src/parser.rs BaseParser::enter_recursion_rule, push_new_recursion_context, unroll_recursion_context")],
  ["the returned parse tree"])

p("P12", "Syntax errors are reported and recovered from exactly as documented",
  "For every LL(1) grammar and every token sequence, the default error strategy deletes a single spurious token, makes up a single missing one, skips to a loop's continuation, or abandons the rule and skips to what a caller can continue with - in that order of preference. Each error is reported once, with the exact offending token, position and message including the exact set of expected tokens; the returned tree has error nodes exactly at skipped and made-up tokens.",
  ["inputs", "programs"], "all LL(1) grammars and token sequences (checked: 7 hand-picked grammars and the LL(1) part of 1568 enumerated ones, inputs up to 7 tokens, with and without hidden tokens)",
  "Tests only parse valid texts, so no recovery path is ever executed by them; what is right depends on every combination of position, follow sets and earlier errors.",
  ["src/error_strategy.rs", "src/parser.rs", "src/errors.rs", "src/ll1_analyzer.rs", "src/atn.rs"],
  [("recovery algorithm", "src/error_strategy.rs DefaultErrorStrategy::recover_inline, sync, recover, consume_until"),
   ("expected-token sets", "src/atn.rs ATN::get_expected_tokens, next_tokens, src/ll1_analyzer.rs LL1Analyzer::look")],
  ["errors given to the parser's listeners, error nodes of the returned tree"])

p("P13", "Errors never lose tokens and never blame a token that is fine",
  "For every grammar and every token sequence, parsing terminates; every token read appears exactly once, in order, as a leaf of the tree, as an error node only after an error was reported. The first error comes when everything consumed is the beginning of a sentence, its offending token is not before the parser's position, and, where no decision depends on the calling rules, it is the first token no sentence can continue with. A prediction fails only if no alternative could have finished the decision's rule just before the offending token (unless full context was needed). The bail strategy fails on exactly the same inputs, stops right there and names the cause. Marks on the token stream are always released.",
  ["inputs", "programs"], "all grammars and token sequences (checked: 12 hand-picked grammars and 1568 enumerated ones, inputs up to 7 tokens)",
  "Error paths are not executed by the tests, and termination and token accounting under recovery quantify over all malformed inputs.",
  ["src/error_strategy.rs", "src/parser.rs", "src/parser_atn_simulator.rs", "src/errors.rs"],
  [("prediction failure", "src/parser_atn_simulator.rs ParserATNSimulator::adaptive_predict, no_viable_alt"),
   ("bail-out", "src/error_strategy.rs BailErrorStrategy::process_error"), ("error nodes", "src/parser.rs BaseParser::consume, match_token")],
  ["returned tree or error, errors given to listeners, token stream position and mark"])

p("P11", "A parse tree describes itself consistently",
  "For every grammar and every input, valid or not: each node's children are reached alike by index, iteration and type; each rule node's parent is the node listing it, and the root has none; a node's text is the concatenation of its leaves' texts; the printed tree is the LISP form of the tree with white space escaped; start, stop and source interval are the first token the rule saw and the last one taken; labelled alternatives get the node type and number of the alternative taken and replace the unlabelled node in place; tokens by type are exactly the terminal children of that type; the rule invocation stack names the active rule calls.",
  ["inputs", "programs"], "all grammars and inputs (checked: 12 hand-picked grammars and 1568 enumerated ones, inputs up to 8 tokens, with error recovery, hidden tokens, labels)",
  "The tests look at a few texts of a few trees; broken parents, extents or typed accessors on empty, recovered, relabelled or left-recursive nodes escape them.",
  ["src/parser_rule_context.rs", "src/rule_context.rs", "src/tree.rs", "src/trees.rs", "src/parser.rs"],
  [("node structure and extent", "src/parser.rs BaseParser::enter_rule, exit_rule, enter_outer_alt, push_new_recursion_context, unroll_recursion_context, add_context_to_parse_tree"),
   ("typed access", "src/parser_rule_context.rs ParserRuleContext::child_of_type, children_of_type, get_token, get_tokens"),
   ("printing", "src/trees.rs string_tree, src/utils.rs escape_whitespaces")],
  ["public accessors of the returned tree, Parser::get_rule_invocation_stack"])

p("P14", "Listeners and visitors see every node exactly once and in order",
  "For every grammar and every input, valid or not: parse listeners hear, while parsing, one enter and one exit per rule node of the resulting tree, properly nested, each token between the events of its rule, terminals and dropped tokens each once and in order (the left operand of a left-recursive rule before the rule is entered), in order of addition and in reverse order for exits, the generic callback first on enter and last on exit; what they hear does not depend on whether a tree is built. Walking the finished tree reports the same nodes. Removing a listener by its identifier removes that one and gives it back. Visitors visit the children of a node in order, aggregate and stop as told, and use the defaults otherwise.",
  ["inputs", "programs", "histories"], "all grammars, inputs and sets of listeners (checked: 12 hand-picked grammars and 1568 enumerated ones, inputs up to 8 tokens)",
  "The tests attach one or two listeners to valid inputs; events on error recovery, on relabelled or left-recursive rules and listener bookkeeping are not exercised.",
  ["src/parser.rs", "src/tree.rs", "src/error_strategy.rs", "src/errors.rs"],
  [("events while parsing", "src/parser.rs BaseParser::consume, enter_outer_alt, exit_rule, push_new_recursion_context, unroll_recursion_context, trigger_enter_rule_event, trigger_exit_rule_event"),
   ("listener identity", "src/parser.rs BaseParser::add_parse_listener, remove_parse_listener, ListenerId"),
   ("walking and visiting", "src/tree.rs ParseTreeWalker::walk, ParseTreeVisitor, ParseTreeVisitorCompat, VisitChildren")],
  ["callbacks of listeners and visitors, results of visits"])

p("P15", "The prediction mode changes the effort, never what a valid input means",
  "For every grammar and every token sequence: with exact ambiguity detection a syntax error is reported exactly for inputs that are not sentences; in SLL mode whatever is accepted is a sentence, and every sentence is accepted if no decision depends on the calling rules; in either mode the tree of an accepted input is the one the default mode builds. Parsing in SLL mode first and, should that fail, again in LL mode on the same caches gives what LL alone gives.",
  ["inputs", "programs", "histories"], "all grammars and token sequences (checked: 12 hand-picked grammars and 1568 enumerated ones, inputs up to 8 tokens)",
  "The tests never change the prediction mode.",
  ["src/prediction_mode.rs", "src/parser_atn_simulator.rs"],
  [("mode", "src/parser_atn_simulator.rs ParserATNSimulator::set_prediction_mode, exec_atn, exec_atn_with_full_context"),
   ("conflict detection", "src/prediction_mode.rs has_sll_conflict_terminating_prediction, get_conflicting_alt_subsets, all_subsets_conflict, all_subsets_equal")],
  ["returned tree, errors given to listeners"])

p("P16", "What a parser has parsed before never changes a parse",
  "For every grammar and every two token sequences, parsing the second with the decision automata (and context cache) filled by the first - from any rule, in any prediction mode, valid or not - gives exactly the tree, decisions and errors a parser with empty caches gives. One parser asked for a rule repeatedly gives what new parsers placed at the same positions give.",
  ["inputs", "programs", "histories"], "all grammars and pairs of inputs (checked: 12 hand-picked grammars and 1568 enumerated ones, inputs up to 4 tokens)",
  "The caches are global statics in generated code, so every parse depends on all earlier ones in the process; a test runs each input once.",
  ["src/parser_atn_simulator.rs", "src/dfa.rs", "src/dfa_state.rs", "src/prediction_context.rs", "src/parser.rs"],
  [("decision cache", "src/parser_atn_simulator.rs ParserATNSimulator::adaptive_predict, exec_atn, compute_target_state, add_dfa_state, add_dfa_edge"),
   ("context cache", "src/prediction_context.rs PredictionContextCache::get_shared_context"),
   ("parser state between rules", "src/parser.rs BaseParser::exit_rule, unroll_recursion_context")],
  ["returned trees, decisions, errors given to listeners"])

p("P17", "The tokens a parser expects are exactly those that can come next",
  "For every grammar, start rule and input, valid or not: whenever a parser is about to match an element, its expected tokens are exactly the tokens with which some continuation of the rules being parsed - the rest of the current rule, then of each caller in turn - can begin, including end-of-file exactly if all of that may be empty; asking for one token agrees with the set.",
  ["inputs", "programs"], "all grammars, start rules and inputs (checked: 12 hand-picked grammars and 1568 enumerated ones, inputs up to 8 tokens)",
  "Code completion and custom error messages rely on it; the tests only see it through a few messages.",
  ["src/atn.rs", "src/ll1_analyzer.rs", "src/parser.rs", "src/rule_context.rs"],
  [("expected tokens in context", "src/atn.rs ATN::get_expected_tokens, next_tokens, src/parser.rs BaseParser::get_expected_tokens, is_expected_token"),
   ("lookahead within a rule", "src/ll1_analyzer.rs LL1Analyzer::look")],
  ["Parser::get_expected_tokens, Parser::is_expected_token"])

p("P18", "Semantic predicates switch off exactly the alternatives they guard",
  "For every grammar with semantic predicates, every input and every outcome of the predicates at every position: each decision takes the first alternative that can still succeed, where an alternative reachable only past a predicate that is false at the decision's position is out (predicates behind a token do not count); predicates are asked with their own rule and index and at the decision's position only; a false predicate that is reached is reported as that rule's failed predicate. Results do not depend on what the caches have seen under other outcomes.",
  ["inputs", "programs", "histories"], "all grammars, inputs and predicate outcomes (checked: 15 hand-picked and 6272 enumerated grammars with two predicates, inputs up to 8 tokens)",
  "Decision caches store unevaluated predicates; only particular combinations of conflict, context and outcome reach the code that evaluates them, and the tests have one predicate.",
  ["src/parser_atn_simulator.rs", "src/semantic_context.rs", "src/error_strategy.rs", "src/errors.rs"],
  [("hoisting and evaluation", "src/parser_atn_simulator.rs ParserATNSimulator::predicate_dfa_state, get_preds_for_ambig_alts, eval_semantic_context, pred_transition"),
   ("combining predicates", "src/semantic_context.rs SemanticContext::and, or, evaluate"),
   ("reporting", "src/errors.rs FailedPredicateError::new")],
  ["returned tree, errors given to listeners, calls of the user's predicate function"])

p("P19", "Tokens, vocabularies and every kind of input stream keep what they are given",
  "A token created by any factory has exactly the type, channel, text, positions and index it was created with; its text is the given one or else exactly the characters start..stop of the input, '<EOF>' for end-of-file; set_text, set_token_index and conversion to an owned token keep everything else; printing a token shows all of it with control characters escaped. A vocabulary names a token type by its literal, symbolic and display name exactly as the tables say, falling back from display to literal to symbolic name to the number, and None/number out of range. A lexer gives the same tokens - type, channel, text, line, column and positions counted in the input's own units - whatever the input is kept in (borrowed or boxed text, bytes, 16-bit units, code points), whatever the token factory, and whether its tokens are taken one by one, collected, or read through a buffered or unbuffered token stream.",
  ["inputs"], "all token fields, name tables and inputs (checked: texts and inputs of up to 4 characters of any width, tables of 3 names)",
  "Tests only use ASCII lexers with the default factory over one kind of input.",
  ["src/token.rs", "src/token_factory.rs", "src/vocabulary.rs", "src/input_stream.rs", "src/char_stream.rs"],
  [("token creation", "src/token_factory.rs CommonTokenFactory::create, OwningTokenFactory::create, ArenaFactory::create"),
   ("token state", "src/token.rs GenericToken"), ("names", "src/vocabulary.rs VocabularyImpl"),
   ("width-generic stream", "src/input_stream.rs InputStream, src/char_stream.rs InputData")],
  ["accessors of Token, Vocabulary, IntStream, CharStream"])

p("P20", "Ambiguity and full-context reports are true and complete",
  "For every grammar, input and prediction mode: error listeners are told of full-context attempts, context sensitivities and ambiguities only at a decision that was being predicted, from its first token; each attempt is followed by exactly one result of that decision; SLL mode reports none (but see below). A sensitivity report names the predicted alternative and stops at the first token after which it is the only one that can still succeed; an ambiguity report's first alternative is the predicted one; with exact ambiguity detection the reported alternatives are exactly those that can succeed with what has been read, and every ambiguous prediction is reported. With semantic predicates, alternatives whose predicate is false are out; in SLL mode the alternatives that remain after asking the predicates are reported as ambiguous if several do. Parsing again on warm caches reports the same, and what is reported depends only on the tokens up to where the report stops. DiagnosticErrorListener words each report as documented (decision, rule, alternatives, text), omits inexact ambiguities if asked to, and every listener of a parser hears everything.",
  ["inputs", "programs", "histories"], "all grammars, inputs and modes (checked: 12 hand-picked grammars and 1568 enumerated ones, inputs up to 8 tokens)",
  "Reports depend on which configurations remain after full-context prediction; the tests have no diagnostic listener.",
  ["src/parser_atn_simulator.rs", "src/error_listener.rs", "src/prediction_mode.rs"],
  [("reports", "src/parser_atn_simulator.rs report_attempting_full_context, report_context_sensitivity, report_ambiguity"),
   ("wording", "src/error_listener.rs DiagnosticErrorListener, ProxyErrorListener"),
   ("ambiguity detection", "src/prediction_mode.rs resolves_to_just_one_viable_alt, all_subsets_conflict, all_subsets_equal")],
  ["calls of ErrorListener::report_*, messages of DiagnosticErrorListener"])

p("P21", "Parsers and lexers running in parallel on shared caches get what each gets alone",
  "Generated code keeps its decision automata and context cache in statics, so every parser and lexer of a process shares them. For every grammar, every input of each thread, every outcome of predicates and every interleaving of their lock operations: each of several parsers (or lexers) running at the same time on the same, initially empty caches returns exactly the tree or tokens, decisions, errors and reports it would alone; none waits forever; and what they leave in the caches serves later parses correctly.",
  ["inputs", "schedules", "programs", "histories"], "all grammars, inputs and interleavings (checked: two or three threads, up to two interruptions anywhere, 12 grammars, 15 predicated grammars and 4 lexers, inputs up to 4 tokens)",
  "The tests never use two parsers at once, and a race on an upgradable lock shows itself only in particular interleavings.",
  ["src/parser_atn_simulator.rs", "src/lexer_atn_simulator.rs", "src/dfa.rs", "src/prediction_context.rs"],
  [("cache locks", "src/parser_atn_simulator.rs ParserATNSimulator::adaptive_predict, compute_target_state, Local::upgrade_lock, downgrade_lock"),
   ("lexer cache locks", "src/lexer_atn_simulator.rs LexerATNSimulator::match_token, compute_target_state, compute_start_state"),
   ("shared caches", "src/dfa.rs DFA, src/prediction_context.rs PredictionContextCache")],
  ["returned trees and tokens, errors given to listeners, termination"])

p("P22", "Generated lexers and parsers do what their grammar says",
  "For every text given to a generated lexer and parser: tokens, errors, parse tree, labels, alternatives, return values and action effects are those the grammar prescribes; listeners, generic and generated, see every rule entered and left and every token once and in order; visitors reach what they are sent to and combine results in order; typed accessors give exactly the children of their kind; everything borrowed from the input or an arena is the input itself. A text outside the language gives an error, and never a panic.",
  ["inputs"], "all texts (checked: the repository's CSV, Labels, VisitorCalc and XMLLexer grammars, texts of up to 7 characters out of 3 to 8)",
  "The tests run each generated parser on one or two well-formed texts.",
  ["src/parser.rs", "src/lexer.rs", "src/tree.rs", "src/parser_rule_context.rs", "src/rule_context.rs", "src/atn_deserializer.rs", "tests/gen"],
  [("generated interface of contexts", "src/parser_rule_context.rs BaseParserRuleContext, src/tree.rs Listenable, Visitable, ParseTreeVisitorCompat"),
   ("parser runtime used by generated code", "src/parser.rs BaseParser::match_token, enter_rule, enter_recursion_rule, push_new_recursion_context, unroll_recursion_context, exit_rule"),
   ("modes and more", "src/lexer.rs BaseLexer::next_token")],
  ["returned trees, tokens, listener and visitor calls, errors given to listeners"])

p("P23", "A serialized grammar is read back exactly, and edges match what they say",
  "For every serialized grammar: reading it gives exactly the states, rules, modes, decisions, greediness, precedence marks, sets, edges and actions that were written, in their order, plus one return edge for each rule call; a text with another version, identification, grammar type, state type, edge type or action type is refused. For every edge and symbol the edge matches the symbol if and only if its label, set, complement or wildcard contains it.",
  ["inputs", "programs"], "all serialized grammars and symbols (checked: one section at a time with symbolic words, up to 3 rules and 12 states, and 31 whole grammars)",
  "The tests read the serialized grammars of a few generated parsers, which never contain most combinations of sections, flags and words.",
  ["src/atn_deserializer.rs", "src/atn.rs", "src/atn_state.rs", "src/transition.rs", "src/interval_set.rs"],
  [("reading", "src/atn_deserializer.rs ATNDeserializer::deserialize, read_states, read_sets, read_edges, edge_factory, lexer_action_factory"),
   ("derived edges and marks", "src/atn_deserializer.rs read_edges, mark_precedence_decisions"),
   ("matching", "src/transition.rs Transition::matches, get_reachable_target")],
  ["public fields of ATN, ATNState and Transition, panics on malformed texts"])

p("P24", "Cached decision automata say what was decided and are printed as they are",
  "For every grammar, input and prediction mode, after parsing or lexing: following the cached automaton of a decision with the tokens (or characters) it was made on ends in an accepting state with the alternative that was taken, in one that asks for full context, in predicates that name it, or where the prediction failed. The printed automaton has exactly one line for each cached edge, naming the symbol and both states, and for accepting states the alternative or the predicates with their alternatives.",
  ["inputs", "programs", "histories"], "all grammars, inputs, modes and predicate outcomes (checked: 12 grammars, 15 predicated ones and 1568 enumerated ones, inputs up to 3 tokens; 3 lexers)",
  "Cached automata are internal to a parse; the tests never look at one and print only that of an unpredicated, non-recursive grammar if any.",
  ["src/dfa.rs", "src/dfa_state.rs", "src/dfa_serializer.rs", "src/parser_atn_simulator.rs", "src/lexer_atn_simulator.rs"],
  [("caching", "src/parser_atn_simulator.rs ParserATNSimulator::compute_target_state, add_dfaedge, predicate_dfa_state; src/lexer_atn_simulator.rs add_dfaedge, add_dfastate"),
   ("precedence start states", "src/dfa.rs DFA::set_precedence_start_state"),
   ("printing", "src/dfa_serializer.rs DFASerializer, src/dfa.rs DFA::to_string, to_lexer_string")],
  ["public fields of DFA and DFAState, DFA::to_string and to_lexer_string"])

p("P25", "Every error reaches every listener once, with the right token and place",
  "For every grammar, input and history of attaching and removing error listeners: each syntax error, each report and each message of the application is told to every attached listener exactly once, in the order of attachment, and to no other. The line and column told are those of the offending token (for lexers, of the failing token's start), the error object carries that token, the first token of the failed decision and the expected tokens the message lists. A strategy behind a box acts as it does directly.",
  ["inputs", "programs", "histories"], "all grammars, inputs and histories (checked: 12 grammars and 1568 enumerated ones, inputs up to 5 tokens; 3 lexers with texts up to 4 characters; up to 4 listeners)",
  "The tests attach at most one listener and do not look at what the error objects carry.",
  ["src/parser.rs", "src/lexer.rs", "src/errors.rs", "src/error_listener.rs", "src/error_strategy.rs"],
  [("telling", "src/parser.rs BaseParser::notify_error_listeners, add_error_listener, remove_error_listeners; src/lexer.rs notify_listeners"),
   ("forwarding reports", "src/error_listener.rs ProxyErrorListener"),
   ("error objects", "src/errors.rs BaseRecognitionError, NoViableAltError, InputMisMatchError"),
   ("boxed strategy", "src/error_strategy.rs impl ErrorStrategy for Box<dyn ErrorStrategy>")],
  ["calls of ErrorListener::syntax_error and report_*"])

open("properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in L))
