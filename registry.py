"""Which harness entries decide which property, with their bounds."""

COMMON_ASSUMPTIONS = [
    "The compiled artefact checked is rustc 1.99.1 -O2, overflow checks on, panic=abort, vectorisers off, fat LTO; other compiler settings are assumed to preserve the semantics.",
    "rustc/LLVM up to the emitted IR, the IR executor in /verif/engine (cross-checked on every run by native replay of sampled paths) and Z3 are trusted.",
    "Allocation always succeeds; the process environment is empty; random hash keys are a fixed value; single thread.",
]


def e(name, bounds, **k):
    d = dict(name=name, bounds=bounds, covers=[1])
    d.update(k)
    return d


GRAMS = [
    "(A B | A C)* EOF", "alternatives told apart after any number of tokens", "SLL conflict that full context resolves", "dangling else",
    "ambiguous alternatives", "non-greedy loop and option with wildcards", "nested brackets", "left-recursive expressions",
    "greedy and non-greedy plus loops", "rules that may be empty", "global follow wider than the actual context", "two recursive references in one rule",
]
PGRAMS = ['ambiguous and overlapping guarded alternatives',
    'guarded alternatives in a loop',
    'guarded alternatives of a rule called twice',
    'guards seen through rule calls',
    'guards with a decision only full context resolves',
    'guarded loops and options next to each other',
    'loop over overlapping guarded alternatives',
    'recursion',
    'two guards that both have to hold',
    'guards of which either has to hold',
    'guard behind a token',
    'guard behind the end of the called rule',
    'guard behind the end of a rule with two callers',
    'non-greedy guarded option and loop',
    'three-way conflict']
PROPS = {
    "P01": dict(
        bin="p01",
        entries=[
            e("h_add4", "4 ranges, endpoints -2..5; membership probe -5..12"),
            e("h_reversed", "2 ranges, then one reversed range, endpoints -2..5"),
            e("h_remove", "2 ranges, 2 single removals (-3..10)"),
            e("h_subtract", "2 ranges minus 2 ranges, endpoints -2..5"),
            e("h_union", "2 ranges united with 2 ranges, endpoints -2..5"),
            e("h_complement", "complement of 2 ranges in any window, endpoints -2..5"),
            e("h_equality", "2 ranges minus an element compared with 3 ranges, endpoints -2..5", covers=[1, 2]),
            e("h_display", "2 ranges, endpoints -2..4"),
            e("h_add4w", "4 ranges, endpoints -2..9", tier="thorough"),
            e("h_add5", "5 ranges, endpoints -2..5", tier="thorough"),
            e("h_remove3", "3 ranges, endpoints -2..9, 2 single removals", tier="thorough"),
            e("h_subtract32", "3 ranges minus 2 ranges, endpoints -2..9", tier="thorough"),
            e("h_equalityw", "2 ranges minus an element compared with 3 ranges, endpoints -2..9", covers=[1, 2], tier="thorough"),
        ],
        outside="sets built by more than 5 updates, values outside -2..9 (in particular arithmetic at the extremes of isize)",
    ),
    "P02": dict(
        bin="p02",
        entries=[
            e("h_str", "2 characters of any UTF-8 length, every position, look-around -4..4, consume/seek back", covers=[1, 2]),
            e("h_str_owned", "the same over an owned string, 1..3-byte characters", covers=[1, 2]),
            e("h_str_text", "3 characters of 1..3 bytes, every span of whole characters"),
            e("h_str_iter", "iteration over 2 characters of any length, and twice past the end"),
            e("h_u8", "2 symbols of 8 bits, borrowed/owned/iterated", covers=[1, 2]),
            e("h_u16", "2 symbols of 16 bits", covers=[1, 2]),
            e("h_u32", "2 symbols of 32 bits", covers=[1, 2]),
            e("h_u8_text", "2 symbols of 8 bits, every span, display form"),
            e("h_u16_text", "2 symbols of 16 bits, every span, display form"),
            e("h_u32_text", "2 symbols of 32 bits, every span, display form"),
            e("h_from_text", "conversion of 2 characters of 1..2 bytes to symbol sequences and back"),
            e("h_str3", "3 characters of any UTF-8 length", covers=[1, 2]),
            e("h_u8_4", "4 symbols of 8 bits", covers=[1, 2], tier="thorough"),
            e("h_u32_4", "4 symbols of 32 bits", covers=[1, 2], tier="thorough"),
            e("h_u8_text4", "4 symbols of 8 bits, every span", tier="thorough"),
            e("h_u32_text4", "4 symbols of 32 bits, every span", tier="thorough"),
        ],
        outside="inputs longer than 4 symbols; indices that do not fall on a symbol boundary; custom stream implementations",
    ),
    "P03": dict(
        bin="p03",
        entries=[
            e("h_buffered", "2 tokens (any type 1..256), every history of 3 operations (consume/mark/release/seek), look-around, text", covers=[1, 2, 3]),
            e("h_unbuffered", "2 tokens, every history of 4 operations", covers=[1, 2, 3]),
            e("h_iter", "0..3 tokens, token and type iteration"),
            e("h_unbuffered6", "3 tokens, every history of 6 operations", covers=[1, 2, 3]),
            e("h_buffered4", "3 tokens, every history of 5 operations", covers=[1, 2, 3], tier="thorough"),
        ],
        outside="more than 3 tokens or 6 operations; token sources that misbehave (no end-of-file token); releasing marks out of order",
    ),
    "P04": dict(
        bin="p04",
        entries=[
            e("h_common", "3 tokens of any type on channels 0/1, stream on channel 0 or 1, every history of 3 operations, look-around -4..5", covers=[1, 2, 3, 4]),
            e("h_iter", "3 tokens on channels 0..3, iteration"),
            e("h_common5", "5 tokens on channels 0/1, every history of 2 operations", covers=[1, 2, 3, 4]),
            e("h_common4", "4 tokens on channels 0..3, every history of 5 operations", covers=[1, 2, 3, 4], tier="thorough"),
        ],
        outside="more than 5 tokens or 5 operations; token sources that put end-of-file on another channel",
    ),
    "P05": dict(
        bin="p05",
        entries=[
            e("h_basic", "keywords/identifiers/numbers/spaces grammar, 3 symbolic characters", covers=[1, 2]),
            e("h_basic4", "the same, 4 characters", covers=[1, 2]),
            e("h_numbers", "optional parts and dots needing backtracking, 3+ characters", covers=[1, 2]),
            e("h_numbers4", "the same, one character more"),
            e("h_unicode", "ranges and sets beyond the 16-bit plane, wildcard, any code point", covers=[1, 2]),
            e("h_nested", "recursive comments, 5 characters", covers=[1, 2]),
            e("h_nested6", "recursive comments, 6 characters", covers=[1, 2]),
            e("h_nongreedy", "non-greedy loops and options, 4-5 characters", covers=[1, 2]),
            e("h_eof", "rules matching end-of-file explicitly", covers=[1, 2]),
            e("h_family", "an enumerated family of two-rule grammars (symbolic choice), short inputs", covers=[1, 2]),
            e("h_labels", "the generated Labels lexer, symbolic ASCII characters", covers=[1, 2]),
            e("h_basic5", "keywords/identifiers/numbers grammar, 5 characters", covers=[1, 2], tier="thorough"),
            e("h_nongreedy6", "non-greedy grammar, 6 characters", covers=[1, 2], tier="thorough"),
            e("h_family_all", "the whole enumerated family", covers=[1, 2], tier="thorough"),
        ],
        outside="inputs longer than 6 characters, grammars outside those listed in harness/src/bin/p05.rs, input streams other than the string stream",
    ),
    "P06": dict(
        bin="p06",
        entries=[
            e("h_modes", "mode/pushMode/popMode/more/skip/type/channel grammar, 4 characters", covers=[1, 2]),
            e("h_modes5", "the same, 5 characters", covers=[1, 2]),
            e("h_alts", "alternatives of one rule with different commands, 4 characters"),
            e("h_alts5", "the same, 5 characters"),
            e("h_embedded", "custom actions that set text, type, channel, mode or the token", covers=[1, 2]),
            e("h_preds", "semantic predicates, true or false independently", covers=[1, 2]),
            e("h_positional", "predicates that look at the line position"),
            e("h_middle", "custom actions in the middle of a rule", covers=[1, 2]),
            e("h_middle_end", "custom actions at the start, in the middle and at the end of a rule, 4 characters", covers=[1, 2]),
            e("h_stack", "deep mode stacks, pop on empty"),
        ],
        outside="inputs longer than 6 characters, grammars outside those listed in harness/src/bin/p06.rs",
    ),
    "P07": dict(
        bin="p07",
        entries=[
            e("h_plain", "plain grammar, 2-3 characters then 2-3 characters"),
            e("h_commands", "grammar with modes and commands"),
            e("h_preds", "grammar with predicates"),
            e("h_nongreedy", "grammar with non-greedy loops"),
            e("h_unicode", "grammar over all code points"),
            e("h_twice", "three inputs in a row", tier="thorough"),
            e("h_deep", "longer inputs", tier="thorough"),
        ],
        outside="longer inputs, more than three inputs in a row, lexers on different threads",
    ),
    "P08": dict(
        bin="p08",
        entries=[e("h_g%d" % k, GRAMS[k] + ", every input of up to %d tokens" % n, covers=[1, 2])
                 for k, n in enumerate([6, 6, 4, 7, 5, 6, 6, 6, 6, 6, 4, 6])]
        + [
            e("h_family", "enumerated family of 1568 three-rule grammars (shape x shape x leaf), every input of up to 3 tokens", covers=[1, 2]),
            e("h_lr", "enumerated family of 120 grammars with a left-recursive rule (primaries x operators x uses), up to 4 tokens", covers=[1, 2]),
            e("h_family4", "the same family, up to 4 tokens", covers=[1, 2], tier="thorough"),
            e("h_lr6", "the 120 left-recursive grammars, up to 6 tokens", covers=[1, 2], tier="thorough"),
        ],
        outside="longer inputs; grammars outside harness/src/par.rs (grams, family, lr_family); semantic predicates other than precedence",
    ),
    "P09": dict(
        bin="p09",
        entries=[e("h_g%d" % k, GRAMS[k] + ", every input of up to %d tokens" % n)
                 for k, n in enumerate([8, 8, 5, 9, 5, 7, 8, 7, 7, 7, 5, 7])]
        + [
            e("h_hidden", "the 12 grammars, up to 4 tokens each visible or hidden"),
            e("h_unbuffered", "the 12 grammars over an unbuffered token stream, up to 4 tokens"),
            e("h_family", "enumerated family of 1568 grammars, up to 3 tokens"),
            e("h_lr", "enumerated family of 120 grammars with a left-recursive rule (primaries x operators x uses), up to 5 tokens"),
            e("h_family4", "the same family, up to 4 tokens", tier="thorough"),
            e("h_lr7", "the 120 left-recursive grammars, up to 7 tokens", tier="thorough"),
        ],
        outside="longer inputs; grammars outside harness/src/par.rs (grams, family, lr_family); the SLL and exact-ambiguity prediction modes (not reachable through the public API)",
    ),
    "P10": dict(
        bin="p10",
        entries=[
            e("h_arith", "binary operators of three levels, left and right associative", covers=[1, 2]),
            e("h_parens", "binary operators and parentheses", covers=[1, 2]),
            e("h_prefix_low", "prefix operator binding weaker than one binary operator", covers=[1, 2]),
            e("h_prefix_lowest", "prefix operator binding weakest", covers=[1, 2]),
            e("h_suffix", "suffix operators", covers=[1, 2]),
            e("h_ternary", "ternary operator, lowest", covers=[1, 2]),
            e("h_ternary_high", "ternary operator, highest", covers=[1, 2]),
            e("h_index", "index/call operators", covers=[1, 2]),
            e("h_tables", "every table of 3 operators (prefix/suffix/binary left/right), up to 6 tokens", covers=[1, 2]),
            e("h_tables_shared", "every table of 2 operators, 5 tokens, with decision caches filled by a parse of another input", covers=[1, 2]),
            e("h_tables7", "every table of operators, 7 tokens", covers=[1, 2], tier="thorough"),
        ],
        outside="longer inputs; more operators; predicates inside operator alternatives",
    ),
    "P12": dict(
        bin="p12",
        entries=[
            e("h_e0", "optional parts and loops, every input of up to 7 tokens, decisions by one token or by full prediction", covers=[1, 2, 3]),
            e("h_e1", "recursive items in a plus loop, up to 7 tokens", covers=[1, 2, 3]),
            e("h_e2", "nested lists, up to 7 tokens", covers=[1, 2, 3]),
            e("h_e3", "sets, wildcard and inverted sets, up to 7 tokens", covers=[1, 2]),
            e("h_e4", "statements and expressions in loops, up to 7 tokens", covers=[1, 2, 3]),
            e("h_e5", "start rule without end-of-file, rules that may be empty, up to 7 tokens", covers=[1, 2, 3]),
            e("h_e6", "loops inside rules inside loops, up to 7 tokens", covers=[1, 2, 3]),
            e("h_family", "every LL(1) member of the enumerated family of 1568 grammars, up to 5 tokens", covers=[1, 2, 3]),
            e("h_unbuffered", "the 7 grammars over an unbuffered stream, up to 5 tokens", covers=[1, 3]),
            e("h_hidden", "the 7 grammars with hidden tokens and white space in token texts, up to 4 tokens", covers=[1, 3]),
            e("h_deep", "the 7 grammars, up to 8 tokens", covers=[1, 2, 3], tier="thorough"),
            e("h_family7", "every LL(1) member of the family, up to 7 tokens", covers=[1, 2, 3], tier="thorough"),
        ],
        outside="grammars that are not LL(1) (their recovery is bounded by P13), left-recursive rules, longer inputs, user-defined error strategies",
    ),
    "P13": dict(
        bin="p13",
        entries=[e("h_g%d" % k, GRAMS[k] + ", every input of up to %d tokens, default and bail strategy" % n, covers=[1])
                 for k, n in enumerate([6, 6, 4, 7, 5, 6, 6, 5, 5, 6, 4, 6])]
        + [
            e("h_family", "enumerated family of 1568 grammars, up to 3 tokens, default strategy", covers=[1, 2, 3]),
            e("h_family_bail", "the family with the bail strategy"),
            e("h_unbuffered", "the 12 grammars over an unbuffered stream, up to 4 tokens", covers=[1, 2]),
            e("h_family4", "the family, up to 4 tokens, both strategies", covers=[1, 2], tier="thorough"),
        ],
        outside="longer inputs; grammars outside harness/src/par.rs; for grammars where prediction depends on the calling rule only the position bounds are claimed, not that the first offending token is the first one no sentence can continue with",
    ),
    "P11": dict(
        bin="p11",
        entries=[e("h_g%d" % k, GRAMS[k] + ", every input (valid or not) of up to %d tokens" % n, covers=[1, 3])
                 for k, n in enumerate([7, 7, 5, 7, 6, 6, 6, 6, 6, 7, 5, 6])]
        + [
            e("h_hidden", "the 12 grammars, up to 4 tokens each visible or hidden, texts with white space", covers=[1, 3, 4]),
            e("h_unbuffered", "the 12 grammars over an unbuffered token stream, up to 4 tokens", covers=[1, 3, 4]),
            e("h_labels", "the 12 grammars with every alternative labelled, up to 6 tokens"),
            e("h_labels_lr", "left-recursive rule with labelled alternatives, up to 8 tokens"),
            e("h_tokens", "the 12 grammars, up to 4 tokens, tokens of a rule by every type"),
            e("h_family", "enumerated family of 1568 grammars, up to 2 tokens", covers=[1, 3, 4]),
            e("h_deep", "the 12 grammars, up to 8 tokens", covers=[1, 3, 4], tier="thorough"),
            e("h_family3", "enumerated family of 1568 grammars, up to 3 tokens", covers=[1, 3, 4], tier="thorough"),
        ],
        outside="longer inputs; grammars outside harness/src/par.rs (grams, family, lr_family); the extent of a rule whose end-of-file was found by dropping the token before it; parents of leaves",
    ),
    "P14": dict(
        bin="p14",
        entries=[e("h_g%d" % k, GRAMS[k] + ", every input (valid or not) of up to %d tokens, two parse listeners and a tree walk" % n, covers=[1, 2, 3])
                 for k, n in enumerate([7, 7, 5, 7, 6, 6, 6, 6, 6, 7, 5, 6])]
        + [
            e("h_family", "enumerated family of 1568 grammars, up to 2 tokens, two parse listeners and a tree walk", covers=[1, 2, 3]),
            e("h_no_tree", "the 12 grammars, up to 4 tokens, with and without building a tree"),
            e("h_removal", "four listeners, with and without data, any two removed in any order, one added; up to 2 tokens"),
            e("h_visit", "the 12 grammars, up to 5 tokens, visitors that prune, stop early, aggregate or keep the defaults"),
            e("h_family3", "enumerated family of 1568 grammars, up to 3 tokens", covers=[1, 2, 3], tier="thorough"),
            e("h_deep", "the 12 grammars, up to 8 tokens", covers=[1, 2, 3], tier="thorough"),
            e("h_visit7", "visitors on the 12 grammars, up to 7 tokens", tier="thorough"),
        ],
        outside="longer inputs; grammars outside harness/src/par.rs; listeners that change the parser while being notified; the extent of a left-recursive rule at the moment an inner level of it is left",
    ),
    "P15": dict(
        bin="p15",
        entries=[e("h_g%d" % k, GRAMS[k] + ", every input of up to %d tokens, SLL and exact-ambiguity modes" % n, covers=[1, 2, 3])
                 for k, n in enumerate([7, 7, 5, 8, 6, 6, 7, 6, 6, 7, 5, 7])]
        + [
            e("h_family", "enumerated family of 1568 grammars, up to 3 tokens, SLL and exact-ambiguity modes", covers=[1, 2, 3]),
            e("h_two_stage", "the 12 grammars, up to 5 tokens, SLL with bail-out and then LL on the same caches"),
            e("h_family4", "the family, up to 4 tokens", covers=[1, 2, 3], tier="thorough"),
            e("h_two_stage7", "the 12 grammars, up to 7 tokens, SLL with bail-out and then LL on the same caches", tier="thorough"),
        ],
        outside="longer inputs; grammars outside harness/src/par.rs; which error invalid input gets in modes other than LL",
    ),
    "P16": dict(
        bin="p16",
        entries=[e("h_g%d" % k, GRAMS[k] + ", first input of up to %d tokens from any rule, LL or SLL, with or without shared context cache, then every input of up to %d tokens" % n)
                 for k, n in enumerate([(4, 4), (4, 4), (3, 4), (3, 3), (3, 4), (3, 3), (3, 3), (2, 3), (2, 3), (3, 3), (3, 4), (3, 3)])]
        + [
            e("h_family", "enumerated family of 1568 grammars, first input of up to 1 token, second of up to 2"),
            e("h_again", "8 grammars, up to 5 tokens, one parser asked for a rule twice", covers=[1, 2]),
            e("h_deep", "the 12 grammars, two inputs of up to 4 tokens", tier="thorough"),
            e("h_family2", "the family, two inputs of up to 2 tokens, both modes", tier="thorough"),
        ],
        outside="longer inputs; more than one earlier parse on the same caches; a parser used again after a syntax error or after a bail-out; grammars outside harness/src/par.rs",
    ),
    "P17": dict(
        bin="p17",
        entries=[e("h_g%d" % k, GRAMS[k] + ", any start rule, every input (valid or not) of up to %d tokens, asked at every element" % n, covers=[1, 2, 3, 9])
                 for k, n in enumerate([7, 7, 5, 7, 6, 6, 6, 6, 6, 7, 5, 7])]
        + [
            e("h_family", "enumerated family of 1568 grammars, any start rule, up to 2 tokens", covers=[1, 2, 3, 9]),
            e("h_family3", "the family, any start rule, up to 3 tokens", covers=[1, 2, 3, 9], tier="thorough"),
            e("h_deep", "the 12 grammars, any start rule, up to 8 tokens", covers=[1, 2, 3, 9], tier="thorough"),
        ],
        outside="longer inputs; grammars outside harness/src/par.rs; predicates and precedences, which expected tokens ignore by design",
    ),
    "P18": dict(
        bin="p18",
        entries=[e("h_p%d" % k, PGRAMS[k] + ", every input of up to %d tokens, every value of two predicates at every position" % n, covers=[1, 2])
                 for k, n in enumerate([5, 6, 6, 6, 5, 6, 6, 7, 5, 5, 5, 5, 5, 5, 5])]
        + [
            e("h_warm", "the 15 grammars, up to 3 tokens, after parsing up to 2 tokens with other predicate values on the same caches", covers=[1, 2, 3]),
            e("h_family", "3136 grammars of the enumerated family with predicates added in 4 ways, up to 2 tokens", covers=[1, 2, 3]),
            e("h_family3", "6272 grammars of the enumerated family with predicates added in 4 ways, up to 3 tokens", covers=[1, 2, 3], tier="thorough"),
            e("h_warm4", "the 15 grammars, up to 4 tokens, after up to 3 tokens", covers=[1, 2, 3], tier="thorough"),
            e("h_deep", "the 15 grammars, up to 8 tokens", covers=[1, 2, 3], tier="thorough"),
        ],
        outside="longer inputs; other grammars; predicates that read the rule context or have side effects; predicates in left-recursive rules; actions in front of predicates",
    ),
    "P19": dict(
        bin="p19",
        entries=[
            e("h_create", "owning and borrowing factories, text given or taken from 3 characters, any type, channel and positions"),
            e("h_set_text", "any text set on any token"),
            e("h_display", "any token, texts with control characters"),
            e("h_vocabulary", "every table of 3 literal, symbolic and display names, any token type"),
            e("h_token_names", "every table of 3 old-style token names, any token type"),
            e("h_strings", "lexing 2 characters of 1 to 3 bytes, borrowed and boxed, four factories, four ways to take the tokens", covers=[1, 2, 4]),
            e("h_strings3", "lexing 3 characters of 1 or 2 bytes, the same ways", covers=[1, 2, 4]),
            e("h_units", "lexing 2 code points, bytes or 16-bit units, the same ways", covers=[1, 2, 4]),
            e("h_units3", "lexing 3 code points, bytes or 16-bit units, the same ways", covers=[1, 2, 4]),
            e("h_strings4", "lexing 4 characters of 1 to 4 bytes, the same ways", covers=[1, 2, 4], tier="thorough"),
            e("h_units4", "lexing 4 code points, bytes or 16-bit units, the same ways", covers=[1, 2, 4], tier="thorough"),
        ],
        outside="longer texts and inputs; user-written token types and factories",
    ),
    "P20": dict(
        bin="p20",
        entries=[e("h_g%d" % k, GRAMS[k] + ", every input of up to %d tokens, LL, SLL and exact-ambiguity modes, cold and warm caches" % [6, 6, 5, 7, 5, 5, 6, 5, 5, 6, 5, 6][k], covers=c)
                 for k, c in enumerate([[1], [1], [1, 2], [1, 2, 3, 4], [1, 3, 4], [1, 3, 4], [1], [1], [1, 3, 4], [1, 2, 3, 4], [1], [1, 2]])]
        + [
            e("h_family", "enumerated family of 1568 grammars, up to 2 tokens, all modes", covers=[1, 2, 3, 4]),
            e("h_messages", "the 12 grammars, DiagnosticErrorListener with and without exact_only, what it says and what other listeners hear", covers=[1, 2, 3, 4]),
            e("h_messages_unbuffered", "the same over an unbuffered token stream", covers=[1, 2, 3, 4]),
            e("h_prefix", "7 grammars with conflicts, two inputs of up to 4 tokens with a common beginning, all modes: reports that stop within it are the same", covers=[1, 2]),
            e("h_prefix5", "the 12 grammars, two inputs of up to 6 tokens with a common beginning", covers=[1, 2], tier="thorough"),
            e("h_preds", "15 grammars with two predicates, every outcome at every position, up to 4 tokens, all modes", covers=[1, 2, 3, 4, 5]),
            e("h_pfamily", "enumerated family of 1568 grammars with two predicates, every outcome, up to 1 token, all modes", covers=[1, 2, 3, 4, 5]),
            e("h_preds6", "the 15 grammars, up to 6 tokens", covers=[1, 2, 3, 4, 5], tier="thorough"),
            e("h_pfamily2", "1568 other grammars with predicates, up to 2 tokens", covers=[1, 2, 3, 4, 5], tier="thorough"),
            e("h_family3", "the family, up to 3 tokens", covers=[1, 2, 3, 4], tier="thorough"),
        ],
        outside="longer inputs; grammars outside harness/src/par.rs; which of several equivalent attempts is reported first",
    ),
    "P21": dict(
        bin="p21", crate="conc",
        entries=[
            e("h_parsers2", "the 12 grammars, two parsers on one empty DFA and context cache, up to 1 token each, up to 2 interruptions, each at any lock acquisition", covers=[1, 20, 21, 22]),
            e("h_parsers", "the 12 grammars, two parsers, up to 2 tokens each, 1 interruption", covers=[1, 20, 21, 22]),
            e("h_three", "4 of the grammars, three parsers, up to 1 token each, 1 interruption", covers=[1, 20, 21, 22]),
            e("h_preds", "the 15 predicated grammars, two parsers with different predicate outcomes, up to 2 and 1 tokens, 1 interruption", covers=[1, 20, 21, 22]),
            e("h_lexers2", "4 lexers, two of each, up to 1 character each, 2 interruptions", covers=[1, 20, 21, 22]),
            e("h_lexers", "4 lexers, two of each, up to 2 and 1 characters, 1 interruption", covers=[1, 20, 21, 22]),
            e("h_parsers3", "the 12 grammars, two parsers, up to 2 tokens each, 2 interruptions", covers=[1, 20, 21, 22], tier="thorough"),
            e("h_long", "the 12 grammars, two parsers, up to 4 and 3 tokens, 1 interruption", covers=[1, 20, 21, 22], tier="thorough"),
            e("h_preds2", "the 15 predicated grammars, up to 2 tokens each, 2 interruptions", covers=[1, 20, 21, 22], tier="thorough"),
            e("h_lexers3", "the lexers, up to 3 and 2 characters, 2 interruptions", covers=[1, 20, 21, 22], tier="thorough"),
            e("h_three2", "the 12 grammars, three parsers, up to 2, 1 and 1 tokens, 2 interruptions", covers=[1, 20, 21, 22], tier="thorough"),
        ],
        assumptions=[
            "parking_lot is replaced (conc/parking_lot) by locks with the same exclusion rules - upgradable reads, upgrades, downgrades, no new readers while a writer waits - that ask a scheduler before every acquisition; what threads do between two acquisitions is taken to be atomic, which is sound as long as shared data is only touched under these locks (what safe Rust enforces)",
            "the standard library's lock around PredictionContextCache is executed as it is and is not a point of interruption",
        ],
        outside="more than three threads, more interruptions, longer inputs; weak-memory effects inside unsafe code; interruptions at the lock of PredictionContextCache",
    ),
    "P22": dict(
        bin="p22",
        entries=[
            e("h_csv", "CSV texts of up to 5 of a , quote newline space"),
            e("h_csv_cr", "CSV texts of up to 6 of a CR LF"),
            e("h_csv7", "CSV texts of up to 7 of a , newline"),
            e("h_labels", "Labels texts of up to 5 of a 1 + * ( ) space"),
            e("h_labels_post", "Labels texts of up to 7 of a + -"),
            e("h_calc", "VisitorCalc texts of up to 5 of 1 2 + - * / space"),
            e("h_calc7", "VisitorCalc texts of up to 7 of 1 + *"),
            e("h_xml", "XML texts of up to 4 of < > / a & ; ! space"),
            e("h_xml_tag", "XML texts <a and up to 4 of < > / a = quote space ?"),
            e("h_xml_decl", "XML texts <? and up to 4 of ? > a x m l space"),
            e("h_xml_comment", "XML texts <!-- and up to 5 of - > a"),
            e("h_xml_cdata", "XML texts <![CDATA[ and up to 5 of ] > a"),
            e("h_xml_entity", "XML texts & and up to 5 of # x 1 a ;"),
            e("h_csv6", "CSV texts of up to 6 of a , quote CR LF space", tier="thorough"),
            e("h_labels6", "Labels texts of up to 7 of a + * ( )", tier="thorough"),
            e("h_calc8", "VisitorCalc texts of up to 8 of 1 + - / space", tier="thorough"),
            e("h_xml6", "XML texts of up to 6 of < > / a & ; ! space", tier="thorough"),
        ],
        outside="generated code other than that of the repository's CSV, Labels, VisitorCalc and XMLLexer grammars; longer texts; other characters",
    ),
    "P23": dict(
        bin="p23",
        entries=[
            e("h_version", "every version word"),
            e("h_uuid", "each word of the identification replaced by every other word"),
            e("h_type", "every grammar type, every maximum token type", covers=[1, 999]),
            e("h_states", "every state type with any rule and extra word; lexer and parser grammars", covers=[1, 999]),
            e("h_flags", "6 decision states of every kind, every subset of them non-greedy, decisions in several orders"),
            e("h_rules", "3 rules, start and stop states in any order and place, any token types, lexers and parsers, up to 3 modes"),
            e("h_edges", "an edge of every type but sets with any arguments", covers=[1, 999]),
            e("h_edge_sets", "set edges with two ranges, one of them any, 16 and 21 bits, with and without end of file"),
            e("h_matching", "an edge of every type (but rule calls, which are never matched) with any arguments, any symbol"),
            e("h_twice", "two edges of any type between the same states"),
            e("h_returns", "3 calls among two rules, either left-recursive, any precedence"),
            e("h_precedence", "loops inside and outside left-recursive rules"),
            e("h_actions", "lexer actions with 10 numbers, carried out by a lexer", covers=[1, 999]),
            e("h_grammars", "the grammars of the other properties"),
        ],
        outside="more states, rules, edges and sets than stated; the older serialization formats; malformed texts beyond version, identification, grammar type, state, edge and action types",
    ),
    "P24": dict(
        bin="p24",
        entries=[
            e("h_grams", "the 12 grammars, up to 3 tokens, 3 prediction modes", covers=[1, 2, 3, 4]),
            e("h_twice", "the 12 grammars, two inputs of up to 2 tokens on the same automata, 3 modes", covers=[1, 2, 3, 4]),
            e("h_preds", "the 15 predicated grammars, two inputs of up to 2 tokens with any outcomes, 3 modes", covers=[1, 2, 5]),
            e("h_family", "enumerated family of 1568 grammars, up to 2 tokens, 3 modes", covers=[1, 2, 3, 4]),
            e("h_lexers", "3 lexers, texts of up to 4 of 3 to 6 characters", covers=[1, 2]),
            e("h_grams5", "the 12 grammars, up to 5 tokens, 3 modes", covers=[1, 2, 3, 4], tier="thorough"),
            e("h_twice3", "the 12 grammars, two inputs of up to 3 tokens, 3 modes", covers=[1, 2, 3, 4], tier="thorough"),
            e("h_preds4", "the predicated grammars, two inputs of up to 4 tokens", covers=[1, 2, 5], tier="thorough"),
            e("h_family3", "the family, up to 3 tokens, 3 modes", covers=[1, 2, 3, 4], tier="thorough"),
            e("h_lexers4", "3 lexers, texts of up to 5 characters", covers=[1, 2], tier="thorough"),
        ],
        outside="longer inputs; grammars outside harness/src/par.rs; what Parser::dump_dfa writes to standard output around the automata",
    ),
    "P25": dict(
        bin="p25",
        entries=[
            e("h_grams", "the 12 grammars, up to 5 tokens, the default strategy directly and behind a box", covers=[1, 2, 3]),
            e("h_family", "enumerated family of 1568 grammars, up to 2 tokens, directly and behind a box", covers=[1, 2, 3]),
            e("h_listeners", "the 12 grammars, up to 2 tokens, up to 4 listeners attached and removed in any order", covers=[1, 2, 3, 4]),
            e("h_notify", "the application's own messages: up to 3 tokens, any position, any token, listeners as before", covers=[1, 4]),
            e("h_lexers", "3 lexers, texts of up to 4 of 3 to 4 characters, listeners as before", covers=[1, 2, 4]),
            e("h_grams5", "the 12 grammars, up to 6 tokens", covers=[1, 2, 3], tier="thorough"),
            e("h_family3", "the family, up to 3 tokens", covers=[1, 2, 3], tier="thorough"),
            e("h_lexers6", "3 lexers, texts of up to 6 characters", covers=[1, 2, 4], tier="thorough"),
        ],
        outside="longer inputs; grammars outside harness/src/par.rs; what the console listener writes",
    ),
}

NOT_APPLICABLE = []
HOOKS = None
