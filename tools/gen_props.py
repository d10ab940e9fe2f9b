#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script only so the entries stay readable and valid JSON).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A pattern string matches exactly the language it denotes",
  "A regex compiled from a pattern string accepts a byte string if and only if the whole byte string is in the language the pattern denotes under standard regex syntax (literals, classes, groups, alternation, counted and unbounded repetition, inline flags, Unicode or byte mode). Greediness and capture names never change the answer, and ^ / $ at the outer edges of the pattern are no-ops.",
  ["inputs","programs","configurations"],"every pattern string the parser accepts (with any parser flags), every input byte string of any length",
  "The unit tests sample about 150 pattern/haystack pairs; a wrong rewrite, derivative or character-class translation shows only for a particular combination of operators and a particular byte string.",
  ["src/syntax.rs","src/deriv.rs","src/simplify.rs","src/regex.rs"],
  [("translation of the parsed pattern to expressions","src/syntax.rs from_ast"),("derivative per node kind","src/deriv.rs derivative"),("rewriting constructors","src/simplify.rs mk_*"),("lazy transition table","src/regex.rs transition/transition_inner")],
  observe=["Regex::is_match","Regex::is_match_bytes","Regex::transition","Regex::is_accepting"])
p("C02","Builder combinators denote exact language operations",
  "An expression assembled with the builder accepts exactly the language obtained by applying the set operations to its parts: intersection, union, concatenation, complement over all byte strings, bounded/unbounded repetition, literals, byte literals, bytes, byte sets, the empty string and the empty language, including empty operand lists and references to previously built expressions. This holds for every nesting of these operators.",
  ["inputs","programs"],"every finite nesting of builder operators, every byte string",
  "Tests use intersection and complement only in a handful of containment queries; interactions of rewrites (flattening, merging, factoring, identity elements, complement of complement) need generated nestings.",
  ["src/regexbuilder.rs","src/simplify.rs","src/deriv.rs","src/bytecompress.rs"],
  [("combinator dispatch","src/regexbuilder.rs mk"),("simplifying constructors","src/simplify.rs mk_and/mk_or/mk_concat/mk_not/mk_repeat"),("derivatives of And/Not/Repeat","src/deriv.rs")],
  observe=["RegexBuilder::mk","RegexBuilder::to_regex","Regex::is_match_bytes"])
p("C03","Dead states and emptiness verdicts are exact",
  "A compiled regex reports itself as always empty if and only if no byte string at all matches it. After consuming any bytes, the reached state is the dead state if and only if no continuation (including the empty one) leads to a match; the dead state never accepts and every byte keeps it dead.",
  ["inputs","programs","histories"],"every expression over all operators including intersection and complement, every consumed byte string",
  "test_relevance checks 8 fixed intersections at the initial state only; liveness of every reachable state for every operator mix, in particular complement under intersection, is untested.",
  ["src/relevance.rs","src/regex.rs","src/simplify.rs"],
  [("symbolic derivatives and emptiness search","src/relevance.rs deriv/is_non_empty_limited"),("positivity flags","src/simplify.rs"),("dead-state substitution","src/regex.rs transition_inner")],
  state=[("relevance_cache","memoised emptiness verdict per expression","src/relevance.rs")],
  observe=["Regex::always_empty","StateID::is_dead","RelevanceCache::is_non_empty"])
p("C04","Containment queries are exact",
  "With enough fuel, the containment query between two patterns answers true if and only if every byte string matched by the first is matched by the second, and the expression built for the containment of two patterns or two expression trees matches exactly the strings in the first but not in the second.",
  ["inputs","programs"],"every pair of patterns / expression trees",
  "test_contains has some 20 fixed pairs; wrong answers hide in pairs whose difference is a single long or unusual string.",
  ["src/regexbuilder.rs","src/relevance.rs","src/simplify.rs"],
  [("A and not B construction","src/regexbuilder.rs contained_in/mk_contained_in/mk_contained_in_ast/is_contained_in"),("emptiness search","src/relevance.rs")],
  observe=["RegexBuilder::is_contained_in","RegexBuilder::mk_contained_in","RegexBuilder::mk_contained_in_ast","RegexAst::contained_in"])
p("C05","Fuel limits may turn an answer into an error, never into a wrong answer",
  "Compiling or checking containment under a fuel limit either fails with an error or gives exactly the result of the unlimited operation; a limit at least as large as one that succeeded also succeeds with the same result. A limit far below the work an expensive emptiness check needs does produce the error. The limit counts the work of the call itself only, not what the builder did before.",
  ["inputs","programs","configurations"],"every expression and every fuel limit",
  "Tests try two fuel values on one expression; a limit that is hit in the middle of the search for other expressions is never exercised.",
  ["src/relevance.rs","src/regex.rs","src/regexbuilder.rs"],
  [("fuel accounting and cut-off","src/relevance.rs is_non_empty_limited"),("fuel pass-through","src/regex.rs new_with_exprset, src/regexbuilder.rs to_regex_limited")],
  state=[("cost","work counter","src/ast.rs ExprSet.cost")],
  observe=["RegexBuilder::to_regex_limited","RegexBuilder::is_contained_in","RelevanceCache::is_non_empty_limited"])
p("C06","The prefixes operator accepts exactly the prefixes",
  "The prefixes combinator applied to an expression matches a byte string if and only if it can be extended (possibly by nothing) to a string matched by that expression, so it matches nothing for an empty language and always matches the empty string and the words themselves otherwise. It composes with the other operators like any other expression.",
  ["inputs","programs"],"every operand expression, every byte string",
  "test_prefixes only checks 15 containment verdicts; exact acceptance of prefixes, the empty string and nested uses is never asserted.",
  ["src/simplify.rs","src/deriv.rs","src/relevance.rs","src/regexbuilder.rs"],
  [("simplification and flags","src/simplify.rs mk_prefixes"),("derivative","src/deriv.rs Prefixes arm"),("symbolic derivative","src/relevance.rs Prefixes arm")],
  observe=["RegexAst::Prefixes","Regex::is_match_bytes"])
p("C07","Trailing lookahead: match set and reported length are exact",
  "For a regex A followed by a trailing lookahead B (A, B free of lookarounds), the engine accepts exactly the concatenations of a string of A with a string of B that has no shorter prefix in B, and the lookahead length it reports is the smallest length of such a B-part over all ways to split the input. Without a lookahead the reported length of every match is zero, and a non-match reports no length.",
  ["inputs","programs"],"every A and B (through pattern syntax or builder), every byte string",
  "test_lookaround checks 14 strings on 4 patterns; ambiguity between several simultaneous split points depends on how derivative states are merged.",
  ["src/ast.rs","src/deriv.rs","src/simplify.rs","src/regex.rs","src/syntax.rs"],
  [("offset counting","src/deriv.rs Lookahead arm"),("collapse on nullable, merge in union","src/simplify.rs mk_lookahead/mk_or"),("length extraction","src/ast.rs lookahead_len, src/regex.rs lookahead_len_for_state")],
  observe=["Regex::lookahead_len","Regex::lookahead_len_bytes","Regex::lookahead_len_for_state"])
p("C08","Next-byte hints are sound",
  "For every reachable state: a forced-byte hint means the state is not accepting and every other byte leads to the dead state; a forced-end hint means the state is accepting and every byte leads to the dead state; a dead hint is given if and only if the state is the dead state. Asking for the hint never changes later answers. Joining two hints with | allows at least everything either of them allows, joining with & at least everything both allow, in either order, and joining equal hints changes nothing.",
  ["inputs","programs","histories"],"every expression, every reachable state, every byte",
  "One test walks three patterns; hints for nested repetition, unions whose branches agree, lookaheads and compressed alphabets are unsampled.",
  ["src/nextbyte.rs","src/regex.rs","src/ast.rs"],
  [("structural hint","src/nextbyte.rs next_byte_simple/next_byte"),("symbol to byte inversion","src/regex.rs next_byte, AlphabetInfo::inv_map"),("join of hints","src/ast.rs BitOr for NextByte")],
  observe=["Regex::next_byte","NextByteCache::next_byte"])
p("C09","Alphabet compression is invisible",
  "Whether or not alphabet compression is enabled, and whatever bytes and byte sets an expression (or several expressions compiled together) mentions, each accepts the same byte strings as before compression, with the same lookahead lengths (also for lookaheads already entered). Two bytes share a compressed symbol only if no compiled expression distinguishes them, every byte has a symbol below the reported alphabet size, and mapping a symbol back yields a byte only if that byte is the symbol's only one.",
  ["inputs","programs","configurations"],"every set of expressions, every byte value, compression on and off",
  "No test inspects the mapping; alphabets with more than 64 distinct byte sets or all 256 bytes distinguished are never built, nor is the uncompressed configuration.",
  ["src/bytecompress.rs","src/regex.rs"],
  [("equivalence classes of bytes","src/bytecompress.rs compress/compress_bytesets"),("expression rewriting","src/bytecompress.rs map_expr"),("mapping and inverse","src/regex.rs AlphabetInfo")],
  observe=["AlphabetInfo::from_exprset","AlphabetInfo::map","AlphabetInfo::inv_map","Regex::alpha","Regex::is_match_bytes"])
p("C10","The exported DFA table reproduces the regex",
  "For a regex with few enough states, the exported table consists of a 256-entry byte-to-symbol map followed by complete rows of one entry per symbol, and following it from the initial state along any byte string reaches the same state as stepping the regex itself, with dead strings ending in the dead row. Exporting succeeds regardless of what was queried before, and does not change later answers.",
  ["inputs","programs","histories"],"every regex with fewer than 250 states, every byte string, any earlier queries",
  "utf8_dfa exports a single table and only prints it.",
  ["src/regex.rs"],[("state exploration and table export","src/regex.rs dfa"),("alphabet map","src/regex.rs AlphabetInfo")],
  observe=["Regex::dfa","Regex::initial_state","Regex::is_accepting"])
p("C11","JSON quoting yields exactly the quoted forms",
  "JSON-quoting an expression yields one that matches a text if and only if the text is an encoding of some string matched by the original: backslash, double quote, control characters and DEL must be escaped, using only the allowed escapes (short escapes, and \\u00XX for control characters in either hex case, \\u007F for DEL), every other byte stands for itself; characters with no allowed escape cannot occur. Outside raw mode the whole is surrounded by one pair of double quotes. In raw mode a trailing lookahead remains one, over the quoted parts.",
  ["inputs","programs","configurations"],"every expression without intersection, complement and prefixes; every subset of allowed escapes; raw mode on and off; every text",
  "Tests check two option sets on about ten patterns, mostly single characters; byte classes that contain all control characters but not the quote or backslash, or all but newline, take different code paths.",
  ["src/regexbuilder.rs"],[("per-byte-set quoting","src/regexbuilder.rs json_quote: quote_byteset, quote_all_ctrl, single_quote_byteset, hex_byteset"),("option filter","src/regexbuilder.rs JsonQuoteOptions")],
  observe=["RegexBuilder::json_quote"])
p("C12","Unsupported input is rejected with an error, not a panic or a wrong regex",
  "Compiling any pattern string returns either a working regex or an error and never panics: syntax errors, word boundaries, line anchors and ^ / $ anywhere but the outer edges give errors. Likewise JSON-quoting an expression that uses intersection, complement or prefixes, or naming an unknown escape, and building from an unknown reference or a byte set of wrong size, give errors, after which the builder remains fully usable.",
  ["inputs","programs","histories"],"every string as pattern, every expression tree, every options value, errors at any point of a building session",
  "Tests never assert an error other than one fuel error.",
  ["src/syntax.rs","src/regexbuilder.rs","src/mapper.rs"],
  [("anchor position tracking and bail","src/syntax.rs from_ast"),("validation","src/regexbuilder.rs json_quote/mk")],
  observe=["Regex::new","Regex::new_with_parser","RegexBuilder::mk","RegexBuilder::mk_regex","RegexBuilder::json_quote"])
p("C13","A compiled regex answers independently of query history",
  "Every answer of a compiled regex (state reached, acceptance, lookahead length, next-byte hint, match results) is a function of the expression and the bytes consumed only: it does not depend on which queries were made before, in what order, on which clone, or whether text is fed at once, in pieces or byte by byte. The same state and byte always give the same state, and a clone evolves independently of the original.",
  ["histories","inputs"],"every sequence of queries on a regex and its clones",
  "Each unit test asks a few questions of a fresh object in one order; memo tables filled by one kind of query and read by another are never cross-checked.",
  ["src/regex.rs","src/deriv.rs","src/nextbyte.rs","src/relevance.rs","src/ast.rs"],
  [("transition memo","src/regex.rs transition"),("per-state descriptor memo","src/regex.rs StateDesc"),("derivative memo","src/deriv.rs state_table"),("hint memo","src/nextbyte.rs")],
  state=[("state_table","lazily filled transitions","src/regex.rs"),("state_descs","lazily filled per-state facts","src/regex.rs")],
  observe=["Regex::transition","Regex::transition_bytes","Regex::is_accepting","Regex::next_byte","Regex::lookahead_len_for_state","Regex::clone"])
p("C14","Expressions in a builder keep their meaning",
  "An expression reference obtained from a builder denotes the same language for the life of the builder: building, parsing, quoting, compiling or failing to build anything else before or after, cloning the builder, or changing parser flags later, never changes it. Parser flags apply to exactly the patterns parsed while they are set.",
  ["histories","programs"],"every sequence of builder operations",
  "Tests use a fresh builder for nearly every expression; shared hash-consing, the Unicode-class cache and persisted flags only interact in longer sessions.",
  ["src/regexbuilder.rs","src/ast.rs","src/syntax.rs","src/hashcons.rs","src/simplify.rs"],
  [("shared expression store","src/ast.rs ExprSet"),("Unicode class cache","src/syntax.rs handle_unicode_ranges"),("temporary optimisation switch","src/simplify.rs or_optimized, src/syntax.rs")],
  observe=["RegexBuilder::mk","RegexBuilder::mk_regex","RegexBuilder::to_regex","RegexBuilder::clone"])
p("C15","Unicode classes are exact and default mode stays within UTF-8",
  "In Unicode mode a character class (ranges, negation, set operations, properties, case-insensitive letters, dot) accepts the UTF-8 encoding of a code point if and only if the code point is in the class, and no other byte sequence. A regex compiled from a pattern in the default mode never matches a byte string that is not valid UTF-8, and a prefix of no valid UTF-8 text leads to the dead state.",
  ["inputs","programs"],"every class, every code point, every byte string",
  "Tests try about 40 code points and 9 invalid sequences; classes whose ranges straddle encoding-length or surrogate boundaries are unsampled.",
  ["src/syntax.rs","src/simplify.rs"],
  [("UTF-8 trie construction","src/syntax.rs handle_unicode_ranges/TrieNode"),("class cache","src/ast.rs unicode_cache")],
  observe=["Regex::is_match","Regex::is_match_bytes","Regex::transition"])
p("C16","Hash-consing is a bijection with consecutive ids",
  "Inserting a vector returns the id of the equal vector inserted before, or else the next consecutive id starting at zero; reading an id returns exactly the inserted vector for ever, and an id is valid exactly if it is below the number of distinct vectors. Incremental insertion (words and slices in any split) is equivalent to inserting the whole vector, and clones are independent.",
  ["histories","inputs"],"every sequence of insertions and reads, every vector length including zero",
  "The container is only exercised indirectly with short vectors; growth, collisions, empty vectors and mixed incremental insertion are untested.",
  ["src/hashcons.rs"],[("insertion, lookup and growth","src/hashcons.rs start_insert/push_u32/push_slice/finish_insert")],
  state=[("backing/elements/table","storage of vectors","src/hashcons.rs")],
  observe=["VecHashCons::insert","VecHashCons::get","VecHashCons::len","VecHashCons::is_valid"])
p("C17","Tree mapping is a left-to-right bottom-up fold",
  "The tree-mapping utility calls the mapper exactly once per node, after all its children and with their results in child order, visiting siblings left to right, and returns the root's result. If the mapper fails for a node, that error is returned and the mapper is not called again.",
  ["inputs","fault_sequences"],"every tree shape, a failure injected at every node",
  "Never tested directly; building expressions only shows wrong order for asymmetric trees.",
  ["src/mapper.rs"],[("explicit-stack traversal","src/mapper.rs map_ast")],observe=["map_ast"])
p("C18","Expression depth does not exhaust the call stack",
  "Building, compiling, matching, emptiness checking, hinting and JSON-quoting expressions nested many thousands of levels deep complete within a small fixed call stack, with correct answers.",
  ["inputs","programs"],"every deeply nested expression (nesting far beyond any test)",
  "The README lists non-recursive derivatives as done; tests never nest more than a few levels.",
  ["src/ast.rs","src/mapper.rs","src/bytecompress.rs","src/syntax.rs","src/simplify.rs","src/nextbyte.rs"],
  [("iterative memoised map","src/ast.rs map"),("iterative compression","src/bytecompress.rs map_expr"),("iterative parsing","src/syntax.rs from_ast"),("bounded factoring recursion","src/simplify.rs trie_rec"),("iterative AST mapping","src/mapper.rs map_ast")],
  observe=["RegexBuilder::mk","RegexBuilder::to_regex","Regex::transition","RegexBuilder::json_quote"])
p("C19","Raw derivatives, nullability and positivity agree with the language",
  "In the raw expression store, for any alphabet size, the derivative of an expression by a symbol denotes exactly the words that follow that symbol; an expression is reported nullable if and only if it denotes the empty word, is reported positive only if it denotes some word, and the raw emptiness check is exact. Results do not depend on what the derivative or emptiness caches already hold.",
  ["inputs","programs","histories","configurations"],"every expression over every operator, every alphabet size from 1 to 256, every word",
  "The raw interface (used by embedding lexers) has no tests at all, and alphabet sizes that are not a multiple of the word size only arise incidentally.",
  ["src/deriv.rs","src/ast.rs","src/simplify.rs","src/relevance.rs"],
  [("derivative","src/deriv.rs derivative"),("flags","src/ast.rs ExprFlags, src/simplify.rs"),("memoised traversal","src/ast.rs map"),("emptiness","src/relevance.rs")],
  observe=["raw::DerivCache::derivative","raw::ExprSet::is_nullable","raw::ExprSet::is_positive","raw::RelevanceCache::is_non_empty"])
p("C20","Symbol-set algebra is exact for every alphabet size",
  "Union, intersection, difference, complement and complement-of-union of symbol sets yield exactly the set-theoretic result within the alphabet, in canonical form: equal sets are the same expression, an empty set is the empty language, a singleton is the single symbol. The predefined any-symbol expression denotes exactly all symbols of the alphabet.",
  ["inputs","configurations"],"every pair/list of symbol sets, every alphabet size from 1 to 256",
  "Never tested directly; sizes not divisible by 32 leave unused bits that only matter for particular combinations.",
  ["src/simplify.rs","src/ast.rs"],[("set operations","src/simplify.rs mk_byte_set*"),("predefined expressions","src/ast.rs ExprSet::new")],
  observe=["raw::ExprSet::mk_byte_set_and","raw::ExprSet::mk_byte_set_sub","raw::ExprSet::mk_byte_set_neg_or","raw::ExprSet::mk_byte_set_or","raw::ExprSet::mk_byte_set_not"])
p("C21","Equal constructions give identical expressions, so state spaces are finite",
  "Building the same thing twice gives the identical expression reference; in a compiled expression store, unions and intersections are identical up to order, duplication and nesting of operands, concatenations up to nesting, and neutral and absorbing operands (of any of the three, at any place, however many operands there are), double complement, and single repetition are simplified away, and of several lookaheads in a union with the same remaining body only the nearest one is kept. As a consequence, exploring all strings over any lookahead-free regex visits only finitely many states, and so does exploring A LookAhead(B) where A is free of intersection and complement, B is a literal or a repeated class with a terminator, and the lengths to remember are bounded.",
  ["inputs","programs","histories"],"every multiset of operands in every order and grouping; every regex",
  "Losing canonical form keeps every match result right, so no existing test could notice until memory runs out.",
  ["src/simplify.rs","src/hashcons.rs","src/ast.rs","src/regex.rs"],
  [("sorting, flattening, deduplication","src/simplify.rs mk_or/mk_and/flatten_tag"),("hash-consing","src/ast.rs mk, src/hashcons.rs"),("state identity","src/regex.rs insert_state")],
  observe=["raw::ExprSet::mk_or","raw::ExprSet::mk_and","raw::ExprSet::mk_not","RegexBuilder::mk","Regex::transition"])
p("C22","Large keyword alternations match exactly their keywords",
  "A union of any number of literal strings (given as a pattern or with the builder, in any order, with duplicates, shared prefixes, keywords that are prefixes of others, and a common tail expression) accepts exactly those strings followed by the tail. A proper prefix of a keyword is never dead and a string that is not a prefix of any is always dead.",
  ["inputs","programs"],"every finite multiset of keywords of any length and overlap",
  "The trie test has three fixed small sets; deep shared prefixes (beyond the factoring depth limit) and large sets are untested.",
  ["src/simplify.rs"],[("prefix factoring","src/simplify.rs or_optimized/trie_rec")],
  observe=["Regex::is_match","RegexBuilder::mk"])
p("C23","The forced-prefix test is sound",
  "If the store reports that an expression simply forces a given byte prefix, then every string the expression matches starts with that prefix; the empty prefix is always forced, and a literal forces each of its prefixes.",
  ["inputs","programs"],"every expression, every byte prefix",
  "Not tested at all.",
  ["src/ast.rs"],[("syntactic prefix test","src/ast.rs has_simply_forced_bytes")],
  observe=["raw::ExprSet::has_simply_forced_bytes"])
p("C24","Printing and statistics are total, bounded and without side effects",
  "Rendering an expression or a syntax tree as text never panics, whatever the alphabet size of the store, the depth, width or sharing of the expression, the contents of literals and byte sets, and the length limit. The text exceeds the limit by at most a constant factor plus one leaf (even when the full text would be exponential), it is complete whenever the complete text fits within the limit, and it is the same every time and in clones; different expressions of one store have different complete texts, and changing an operator, an operand, a count or a letter of a syntax tree changes its complete text. Debug output, statistics and size estimates of a compiled regex can be requested at any point and change no later answer.",
  ["inputs","programs","configurations"],"every expression and syntax tree, every alphabet size from 1 to 256, every length limit, every point of a query history",
  "No test prints anything but a few trees; byte sets in small alphabets, truncation and exponentially shared expressions never occur.",
  ["src/pp.rs","src/ast.rs","src/regexbuilder.rs","src/regex.rs"],
  [("expression printer","src/pp.rs write_expr/write_concat/write_exprs/byteset_to_string"),("syntax tree printer","src/regexbuilder.rs write_to_str"),("statistics","src/regex.rs stats/num_bytes")],
  observe=["raw::ExprSet::expr_to_string","raw::ExprSet::expr_to_string_max_len","raw::ExprSet::expr_to_string_with_info","RegexAst::write_to_str","Regex::stats","Regex::num_bytes"])
p("C25","The same calls on fresh instances give identical results",
  "Two builders, regexes, raw stores or caches that receive the same sequence of calls return identical results throughout: expression references, state numbers, lookahead lengths, hints, exported tables, symbol maps, errors, texts, costs, sizes and the outcome of every fuel limit. Nothing depends on other instances, on earlier work in the process, or on hash seeds, and continuing on a clone gives the same results as continuing on the original.",
  ["histories","inputs","configurations"],"every sequence of calls on builders, regexes and raw stores",
  "A test runs once; iteration over a randomly seeded hash table gives right matches but different numbering, costs and fuel outcomes from run to run.",
  ["src/regexbuilder.rs","src/ast.rs","src/simplify.rs","src/relevance.rs","src/bytecompress.rs","src/regex.rs","src/syntax.rs"],
  [("expression store","src/ast.rs ExprSet"),("emptiness search","src/relevance.rs is_non_empty_limited"),("class computation","src/bytecompress.rs"),("state numbering","src/regex.rs insert_state")],
  observe=["RegexBuilder::mk","RegexBuilder::to_regex_limited","Regex::transition","Regex::cost","Regex::stats","Regex::dfa","AlphabetInfo::map"])
p("C26","Mapping over stored expressions visits each one once, operands first",
  "The memoised traversal of the expression store calls the closure exactly once for every expression reachable from the root whose result is not yet in the cache, however often it is shared, never before its operands, and passes the operands' results in operand order. In the concatenation mode only the operands up to and including the first non-nullable one of a concatenation are visited and passed. It returns the root's result, leaves exactly the results in the cache, honours results already there, and the closure may add expressions meanwhile.",
  ["inputs","programs","histories"],"every expression graph, every prior content of the cache, both modes",
  "Never tested directly; derivatives and emptiness rely on it, but wrong sharing or a wrong cut shows only for particular graphs and cache contents.",
  ["src/ast.rs"],[("iterative memoised traversal","src/ast.rs map/simple_map")],
  observe=["raw::ExprSet::map","raw::ExprSet::simple_map"])
p("C27","The possible lookahead bounds what is reported later",
  "For a regex A LookAhead(B), or a union of such, after any input the store's possible lookahead length plus the number of bytes read since is at least every lookahead length reported from then on. It never exceeds the number of bytes read so far, and is zero for expressions without lookahead.",
  ["inputs","programs"],"every pair (or union of pairs) of expressions, every input and every continuation of it",
  "The function is not used by any test.",
  ["src/ast.rs","src/simplify.rs","src/deriv.rs"],
  [("bound","src/ast.rs possible_lookahead_len"),("offsets","src/deriv.rs Lookahead case, src/simplify.rs mk_lookahead")],
  observe=["raw::ExprSet::possible_lookahead_len","raw::ExprSet::lookahead_len"])
p("C28","Answered questions are remembered",
  "Asking again costs nothing: once a text was matched, matching it, a prefix or a part of it again (in any order, at once or in pieces, on the regex or a clone), or replacing a byte by another one of the same symbol, adds no state, transition, expression or cost. A derivative, emptiness or hint question answered by a raw cache is answered again with the same result, no new expressions and no cost, and an emptiness question within any fuel limit. Costs never decrease.",
  ["histories","inputs"],"every sequence of queries, repeated in any order",
  "Tests look at answers only; a lost memo entry or a wrong memo key keeps the answers right and makes matching arbitrarily slow.",
  ["src/regex.rs","src/deriv.rs","src/relevance.rs","src/nextbyte.rs","src/ast.rs"],
  [("transition table","src/regex.rs transition"),("derivative memo","src/deriv.rs state_table"),("emptiness memo","src/relevance.rs relevance_cache"),("cost counter","src/ast.rs cost, src/simplify.rs pay")],
  observe=["Regex::cost","Regex::stats","Regex::num_bytes","raw::DerivCache::num_deriv","raw::ExprSet::cost","raw::ExprSet::len"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
