"""Source of properties.jsonl: run `python3 tools/properties_src.py` to rewrite it."""
import json, os

SRC = "hypothesis-python/src/hypothesis/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement)
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=[SRC + f for f in files],
            mechanism=[dict(name=n, where=SRC + w) for n, w in mech],
        ),
    )
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=SRC + w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)


C = "internal/conjecture/"
S = "strategies/_internal/"

prop("C01", "Float simplicity ordering is a bijection on all 64-bit floats",
     "Mapping a non-negative float to its place in the simplicity order and back returns the same bits, distinct floats get distinct places, and every 64-bit place decodes to a non-negative float. "
     "Non-negative integers below 2**56 come before every other float and in increasing order; among floats that are not such integers, smaller integer part magnitude rules as documented and NaN and infinity come after all finite floats of the normal encoding.",
     ["inputs"], "all 2^64 bit patterns of IEEE doubles and all pairs of them",
     "2^64 inputs; tests sample a few hundred and examples",
     [C + "floats.py"],
     [("float_to_lex / lex_to_float", C + "floats.py"), ("encode/decode_exponent, reverse_bits, update_mantissa", C + "floats.py")])

prop("C02", "Adjacent-float, float-counting and width-rounding arithmetic is exact",
     "For widths 16, 32 and 64, the next-larger and next-smaller float of every value is the true neighbour in that width (there is no representable value strictly between), the two are inverse, and the counted number of floats between two bounds equals the number of representable values between them. "
     "Rounding a value to a width returns a value representable in that width and leaves representable values alone; comparing with signed zeros orders -0.0 before 0.0; clamping any float into a range always lands on a permitted value and leaves permitted values unchanged.",
     ["inputs", "configurations"], "all bit patterns for each width and all pairs of bounds",
     "boundary cases (zero, subnormals, infinities, exponent boundaries) are a vanishing fraction of the space tests sample",
     ["internal/floats.py"],
     [("next_up/next_down/next_up_normal/next_down_normal", "internal/floats.py"), ("count_between_floats, float_of, sign_aware_lte, make_float_clamper, clamp", "internal/floats.py")])

prop("C03", "Indexing of choices by simplicity is a bijection onto permitted values",
     "For every kind of primitive choice (integer, boolean, bytes, text, float) and every set of constraints on it, the simplicity index of a permitted value is a non-negative integer that maps back to that same value, and index 0 is the simplest value the constraints allow. "
     "Mapping any in-range index to a value gives a permitted value with that same index, so distinct permitted values have distinct indices; and the count of possible values equals the number of distinct permitted values whenever it is finite and exact.",
     ["inputs", "configurations"], "all permitted values / indices for all constraint sets within the stated bounds",
     "tests sample values and constraints; errors sit at range edges, shrink targets, signed zeros and size boundaries",
     [C + "choice.py", C + "datatree.py"],
     [("choice_to_index / choice_from_index / collection_index / collection_value / zigzag", C + "choice.py"), ("choice_permitted, choice_key, choice_equal", C + "choice.py"), ("compute_max_children / all_children", C + "datatree.py")])

prop("C04", "Serialized choice sequences round-trip and decoding never crashes",
     "Any sequence of primitive choices (booleans, unbounded integers, floats including NaN payloads and signed zeros, bytes, text including surrogates) serializes to bytes that deserialize to the same sequence with the same types and bit patterns, and distinct sequences never serialize alike. "
     "Deserializing arbitrary bytes either yields a valid choice sequence or reports that the bytes are not one; it never raises. "
     "The textual reproduction blob printed for a failure decodes back to exactly the choices it was made from.",
     ["inputs"], "all choice sequences and all byte strings within the stated length bounds",
     "corrupt/truncated inputs and length boundaries are rare under random sampling",
     ["database.py", "core.py"],
     [("choices_to_bytes / choices_from_bytes / _pack_uleb128 / _unpack_uleb128", "database.py"), ("encode_failure / decode_failure", "core.py")])

prop("C05", "Code-point interval sets behave exactly like sets of integers",
     "Union, intersection, difference and membership of interval sets agree, for every code point, with the same operations on the sets of code points they denote, and results are sorted, disjoint and non-adjacent intervals. "
     "Size, positional lookup, position-of and first-position-at-or-above agree with the sorted list of members, including negative positions and out-of-range errors. "
     "The simplicity order of characters is a permutation of the members with its inverse, putting '0'-'9' (when present), then other characters as documented, first.",
     ["inputs"], "all interval sets of up to the stated number of intervals with arbitrary end points, and all code points",
     "adjacent/touching/overlapping interval layouts are combinatorial; tests sample them",
     ["internal/intervalsets.py"],
     [("IntervalSet", "internal/intervalsets.py")])

prop("C06", "Every generated primitive choice satisfies the constraints it was asked for",
     "Whatever the random source (or fuzzer-supplied byte buffer) returns, every integer, boolean, float, bytes or text value produced by the built-in generators satisfies the requested bounds, weights-domain, shrink target, NaN, smallest-nonzero-magnitude, alphabet and size constraints, and has exactly the requested type. "
     "A forced value is returned bit-for-bit unchanged and a byte buffer that runs out stops the test case rather than producing an invalid value.",
     ["inputs", "configurations"], "all outputs of the randomness source and all constraint values within bounds",
     "tests draw a few hundred samples per constraint; rare random outcomes (special constants, weights, clamping) are not reached",
     [C + "providers.py", C + "utils.py"],
     [("HypothesisProvider.draw_*", C + "providers.py"), ("BytestringProvider.draw_*", C + "providers.py"), ("Sampler, many, INT_SIZES_SAMPLER", C + "utils.py")])

prop("C07", "Replaying a recorded test case reproduces exactly the same choices",
     "Running a deterministic test body again on the choices recorded from a previous run reproduces the same values, the same recorded choices and the same outcome, with no misalignment. "
     "A replay prefix that does not fit what is being requested is replaced by the simplest permitted value for that request and marked as misaligned; a prefix longer or shorter than needed never changes the values it does cover, and exceeding the maximum number of choices or maximum size ends the run as an overrun, never as a pass or failure. "
     "The recorded span structure is always a properly nested tree whose children lie inside their parents.",
     ["inputs", "histories"], "all sequences of draw requests, constraints and prefixes up to the stated length",
     "mismatch between prefix and request (type, range, forced, templates) is combinatorial",
     [C + "data.py"],
     [("ConjectureData._draw/_pop_choice/freeze/conclude_test", C + "data.py"), ("Spans / SpanRecord", C + "data.py")])

prop("C08", "Bookkeeping of explored behaviour is exact: novel inputs are really novel",
     "For any history of executed deterministic test cases, the next prefix proposed by the search tree has never been fully explored: it is not contained in any already-executed complete test case and lies outside every branch marked as finished. "
     "Predicting a test case from the tree either yields exactly the outcome that was recorded or reports that it is unknown, and exploration is declared exhausted only when every permitted choice at every reachable decision was tried or killed. "
     "A test body whose draw requests differ between runs on the same prefix is reported as flaky.",
     ["histories", "inputs"], "all histories of test executions within the stated number of runs, choices per run and choice-domain sizes",
     "depends on the history of prior runs; tests exercise particular histories",
     [C + "datatree.py"],
     [("DataTree.generate_novel_prefix / simulate_test_function / TreeRecordingObserver / TreeNode.split_at / check_exhausted", C + "datatree.py")])

prop("C09", "Shrinking a single value keeps the failure and never makes it worse",
     "For any predicate and any starting value that satisfies it, shrinking an integer, float, sequence ordering, collection, bytes or text value returns a value that satisfies the predicate, was actually tried, respects the minimum size/alphabet, and is not more complex than the starting value in that kind's simplicity order. "
     "For monotone predicates (everything at or above a threshold) integer shrinking reaches exactly the threshold, the adaptive search helpers return a point at which the predicate changes from true to false, and enumerating the choices of a shrink pass makes every combination exactly once.",
     ["inputs", "programs"], "all predicates over the visited values (each answer an independent symbolic bit), all thresholds and start values within bounds",
     "predicates are arbitrary programs; tests use a handful",
     [C + "shrinking/common.py", C + "shrinking/integer.py", C + "shrinking/floats.py", C + "shrinking/ordering.py", C + "shrinking/collection.py", C + "shrinking/bytes.py", C + "shrinking/string.py", C + "shrinking/choicetree.py", C + "junkdrawer.py"],
     [("Shrinker.consider/incorporate/run_step", C + "shrinking/common.py"), ("find_integer, binary_search", C + "junkdrawer.py")])

prop("C10", "Shrinking a failing test case never loses the failure or makes it worse",
     "For any deterministic test body, reducing a failing test case ends with a test case that still fails for the same reason, that was really executed, and that is no larger in the simplicity order than the one it started from; every accepted intermediate step strictly decreases that order. "
     "No accepted step contains a value outside the constraints in force when it was executed.",
     ["programs", "inputs"], "all outcome functions over the choice sequences visited (each outcome an independent symbolic value) for test bodies of bounded shape",
     "outcome functions are arbitrary programs; shrink tests use a few dozen bodies",
     [C + "shrinker.py", C + "engine.py"],
     [("Shrinker.cached_test_function/incorporate_test_data/update_shrink_target and every shrink pass", C + "shrinker.py"), ("sort_key", C + "shrinker.py")])

prop("C11", "The engine honours example budgets, phases and per-bug best examples",
     "For any test body, a run that finds no failure executes at most max_examples valid test cases and at most max(10*max_examples, 1000) test cases in total, and phases that are switched off are not executed. "
     "For every distinct failure origin the engine keeps the simplest failing test case it has executed for that origin, and each kept example still fails with that origin when run again.",
     ["programs", "configurations", "histories"], "all outcome functions of the executed test cases (each outcome symbolic), max_examples and phase sets within bounds",
     "history-dependent counters and arbitrary test outcomes",
     [C + "engine.py"],
     [("ConjectureRunner.test_function / should_generate_more / exit_with / generate_new_examples / shrink_interesting_examples", C + "engine.py")])

prop("C12", "Example databases behave like maps from keys to sets of byte strings",
     "After any history of save, delete, move and fetch calls, fetching a key returns exactly the values a map from keys to sets would hold, for the in-memory, directory, multiplexed and background-write databases, including values that are empty, moves where source equals destination, and deletes of absent values. "
     "A read-only wrapper never changes the underlying database, and a multiplexed fetch yields each value once. "
     "Change listeners are told of every change that happened and of none that did not.",
     ["histories", "inputs"], "all histories up to the stated length over symbolic operations, keys and values",
     "history-dependent; tests run fixed or sampled histories",
     ["database.py"],
     [("InMemoryExampleDatabase/DirectoryBasedExampleDatabase/ReadOnlyDatabase/MultiplexedDatabase/BackgroundWriteDatabase save/fetch/delete/move and listeners", "database.py")])

prop("C13", "Failures saved to the database are replayed first and stale entries cleared",
     "When a test fails, its simplest failing test case is stored, and on the next run with the same key and database every stored primary entry is executed before any new example is generated and reproduces the failure if the test body is unchanged. "
     "Entries that were tried and no longer fail, or cannot be decoded, are removed from the primary corpus, and no entry of the primary corpus that still fails is ever dropped without a simpler failing replacement for the same failure being stored.",
     ["histories", "programs"], "all outcome functions over two consecutive runs and all initial corpora within bounds",
     "needs two runs and arbitrary changes of the test body between them",
     [C + "engine.py"],
     [("ConjectureRunner.reuse_existing_examples / save_choices / downgrade_choices / clear_secondary_key", C + "engine.py")])

prop("C14", "Bounded caches return what was stored and evict by the documented policy",
     "For any history of get, set, pin and unpin operations, a bounded cache never holds more than its maximum number of entries, a lookup that succeeds returns the value most recently stored for that key, and pinned entries are never evicted. "
     "When space is needed the entry evicted is one of the unpinned entries ranked lowest by the cache's policy (least recently used, or single-use entries before re-used ones), and entries that were not evicted remain retrievable.",
     ["histories"], "all operation histories up to the stated length, with symbolic keys and scores, from arbitrary valid states",
     "history-dependent heap manipulation; tests sample histories",
     ["internal/cache.py"],
     [("GenericCache heap, LRUReusedCache, LRUCache", "internal/cache.py")])

prop("C15", "Internal sequence utilities agree with plain Python lists",
     "Compact integer lists, copy-on-write sequence copies, self-organising lists, region replacement, prefix/suffix tests and sorted insertion give, after any history of operations, the same observable results as the same operations on ordinary Python lists, including negative indices, slices and popping. "
     "A copy-on-write copy never changes the sequence it was made from.",
     ["histories", "inputs"], "all operation histories up to the stated length with symbolic indices and elements",
     "history-dependent; indices and aliasing rarely hit by samples",
     [C + "junkdrawer.py"],
     [("IntList, LazySequenceCopy, SelfOrganisingList, replace_all, insert/startswith/endswith", C + "junkdrawer.py")])

prop("C16", "Targeted search keeps the best scores and a true Pareto front",
     "The set kept by multi-objective search contains no test case that is dominated by another kept one, every rejected or evicted test case is dominated by one that is kept, and the domination relation is a strict partial order up to equality that never prefers a less severe outcome, a lower score on any target, or a more complex test case. "
     "Hill-climbing on a score never ends on a test case with a lower score than it started from.",
     ["inputs", "histories"], "all statuses, simplicity ranks and target scores of up to the stated number of test cases added in any order",
     "domination among k results is combinatorial over real-valued scores",
     [C + "pareto.py", C + "optimiser.py", C + "engine.py"],
     [("dominance, ParetoFront.add", C + "pareto.py"), ("Optimiser.hill_climb / consider_new_data", C + "optimiser.py")])

prop("C17", "integers() yields exactly the integers within its bounds",
     "For every choice sequence and every (possibly one-sided or absent) pair of bounds, a value drawn from the integer strategy is an int within the bounds; when bounds exclude zero the simplest value is the bound nearest zero, otherwise zero.",
     ["inputs", "configurations"], "all bounds and all choice values of unbounded magnitude",
     "bounds are arbitrary-precision integers",
     [S + "numbers.py"], [("IntegersStrategy.do_draw, integers", S + "numbers.py")])

prop("C18", "floats() yields only floats its arguments allow, at the requested width",
     "For every combination of bounds, exclusive bounds, width, NaN/infinity permission and subnormal permission that is accepted, every value drawn is representable at the width, within the bounds (respecting exclusion and the sign of zero), NaN or infinite only if allowed, and subnormal only if allowed. "
     "Argument combinations that admit no value, or bounds not representable at the width, are rejected when the strategy is defined, never by producing a bad value.",
     ["inputs", "configurations"], "all bit patterns of bounds at each width and all drawn bit patterns",
     "boundary combinations of zero sign, exclusion and subnormals over 2^64 values per bound",
     [S + "numbers.py", C + "providers.py"], [("floats, FloatStrategy", S + "numbers.py"), ("draw_float clamping", C + "providers.py")])

prop("C19", "Rewriting a filter never changes which values a strategy can produce",
     "Filtering an integer, float, date/time, text, binary or collection strategy by a comparison, length or emptiness predicate (including partials and simple lambdas of comparisons) yields a strategy whose permitted values are exactly the original strategy's values satisfying the predicate: nothing that fails the predicate is ever produced, and no satisfying value becomes impossible. "
     "Filters that cannot be understood are left in place and still applied.",
     ["inputs", "programs", "configurations"], "all bounds and comparison constants, all candidate values, for every comparison operator form",
     "interaction of existing bounds with predicate constants (strictness, int vs float constants, infinities, NaN) is unbounded",
     ["internal/filtering.py", S + "numbers.py", S + "collections.py", S + "strings.py", S + "datetime.py"],
     [("get_integer_predicate_bounds / get_float_predicate_bounds / convert_keywords / merge_preds", "internal/filtering.py"), ("IntegersStrategy.filter, FloatStrategy.filter, ListStrategy.filter, DateStrategy.filter", S + "numbers.py")])

prop("C20", "Generated collections respect size bounds and uniqueness",
     "For every choice sequence, lists, sets, frozensets, dictionaries, fixed dictionaries, tuples and iterables drawn have a size within the requested bounds, contain only values the element strategies can produce in the right positions, and never contain two elements equal under any requested uniqueness key. "
     "If uniqueness cannot be met the test case is rejected rather than a collection that is too small or has duplicates being returned.",
     ["inputs", "configurations"], "all choice sequences and size bounds within bounds, with symbolic elements",
     "collisions between elements are rare under sampling",
     [S + "collections.py", C + "utils.py", S + "core.py"],
     [("ListStrategy/UniqueListStrategy/UniqueSampledListStrategy/FixedDictStrategy/DictStrategy do_draw", S + "collections.py"), ("many.more/reject", C + "utils.py")])

prop("C21", "Strategy combinators only produce values their definition permits",
     "For every choice sequence, a choice between strategies yields a value of one of its non-empty branches, sampling yields an element of the sequence, mapping applies the function to a permitted value, filtering yields only values satisfying every predicate (or rejects the test case), flat-mapping draws from the strategy built from the drawn value, permutations yield a rearrangement of exactly the given elements, shared draws are equal within a test case, and recursive strategies never exceed their leaf limit.",
     ["inputs", "programs"], "all choice sequences within bounds, with predicates as arbitrary boolean oracles",
     "the rejection/retry paths and nested combinations are rarely all exercised",
     [S + "strategies.py", S + "misc.py", S + "core.py", S + "recursive.py", S + "flatmapped.py", S + "shared.py"],
     [("OneOfStrategy, SampledFromStrategy, MappedStrategy, FilteredStrategy", S + "strategies.py"), ("PermutationStrategy", S + "core.py"), ("RecursiveStrategy/LimitedStrategy", S + "recursive.py")])

prop("C22", "Generated dates, times and durations lie within their bounds",
     "For every pair of bounds and every choice sequence, drawn dates, times, datetimes and timedeltas are real calendar values within the closed bounds, every component combination between the bounds is reachable, and drawing never fails for lack of a valid day, month or carry.",
     ["inputs", "configurations"], "all pairs of bounds over the full proleptic calendar / clock and all choices",
     "component-capped drawing has boundary interactions (leap days, month ends, equal prefixes) that samples miss",
     [S + "datetime.py"],
     [("draw_capped_multipart, DatetimeStrategy, TimeStrategy, DateStrategy, TimedeltaStrategy", S + "datetime.py")])

prop("C23", "fractions(), decimals() and complex_numbers() respect their bounds",
     "For every accepted set of bounds and every choice sequence, a drawn fraction lies within its bounds with denominator at most the maximum, a drawn decimal lies within its bounds with exactly the requested number of places, and a drawn complex number has magnitude within its bounds up to rounding.",
     ["inputs", "configurations"], "all bounds and choices within the stated magnitude bounds",
     "rational rescaling and rounding edge cases",
     [S + "core.py", "internal/cathetus.py"],
     [("fractions dm_func / limit_denominator", S + "core.py"), ("decimals int_to_decimal / ctx", S + "core.py"), ("complex_numbers constrained_complex, cathetus", "internal/cathetus.py")])

prop("C24", "Text and character generation honours the requested alphabet and sizes",
     "For every code point, the alphabet built from categories, minimum/maximum code point, included and excluded characters contains it exactly when it satisfies those arguments, and text and binary drawn for every choice sequence have a size within bounds and only characters of the alphabet.",
     ["inputs", "configurations"], "all code points, all min/max code points, included/excluded characters, over the Unicode category table",
     "1.1M code points times arguments",
     ["internal/charmap.py", S + "strings.py", S + "core.py"],
     [("charmap.query / _query_for_key / as_general_categories", "internal/charmap.py"), ("OneCharStringStrategy, TextStrategy, BytesStrategy", S + "strings.py")])

prop("C25", "Index, slice, IP-address and array-shape strategies yield valid values",
     "For every choice sequence: IP addresses drawn for a network belong to that network and version; slices for a size have in-range ends and a nonzero step, and select nothing only when both ends are the same; array shapes respect the dimension and side limits; axis tuples are valid and without repeats; broadcastable shapes really broadcast, with the stated result shape, within all limits; and basic indices are valid for the array shape and give a result within the requested dimension limits.",
     ["inputs", "configurations"], "all choice sequences and symbolic limits within the stated bounds",
     "shape/limit combinations are combinatorial",
     [S + "ipaddress.py", S + "core.py", "extra/_array_helpers.py"],
     [("ip_addresses", S + "ipaddress.py"), ("slices", S + "core.py"), ("array_shapes, valid_tuple_axes, MutuallyBroadcastableShapesStrategy, BasicIndexStrategy", "extra/_array_helpers.py")])

prop("C26", "Generated random-number objects honour the range of every method",
     "For every choice sequence, state history and argument values, each method of a generated Random object returns a value in the range the standard library documents for those arguments, or raises for arguments that the standard library rejects. "
     "Restoring a saved state and repeating the same call with the same arguments repeats the same result.",
     ["inputs", "histories"], "all arguments and choice values within bounds, and all two-call histories with state save/restore",
     "interaction of saved states with different arguments is not sampled",
     [S + "random.py"], [("ArtificialRandom._hypothesis_do_random / getstate / setstate / seed", S + "random.py")])

prop("C27", "State-machine runs obey initialize, precondition, bundle and invariant rules",
     "In every run of a rule-based state machine, all initialize rules run exactly once before any other rule, a rule runs only if all its preconditions hold at that moment and its bundles are non-empty, values drawn from a bundle are ones previously added to it and not yet consumed, and consumed values never reappear. "
     "Every invariant whose preconditions hold is checked after each step (and initially unless initialization is pending), the number of steps never exceeds the configured count, and teardown runs exactly once whatever happens.",
     ["histories", "programs", "inputs"], "all choice sequences for machines of bounded shape and step count, with rule outcomes and preconditions symbolic",
     "the order of rules and contents of bundles is a history; tests run particular machines",
     ["stateful.py", S + "featureflags.py"],
     [("get_state_machine_test loop, RuleStrategy, Bundle/BundleReferenceStrategy, check_invariants", "stateful.py"), ("FeatureFlags", S + "featureflags.py")])

prop("C28", "Registered random states are seeded before and restored after each test",
     "Around every test execution, each registered random generator is seeded to the same state before the body runs and has its previous state put back afterwards, even if the body raises, generators are registered or dropped meanwhile, or executions follow one another; generators not registered are untouched.",
     ["histories"], "all histories of register/drop/use events up to the stated length with symbolic generator states",
     "history-dependent",
     ["internal/entropy.py"], [("register_random, get_seeder_and_restorer, deterministic_PRNG", "internal/entropy.py")])

prop("C29", "Automaton utilities agree with the languages they represent",
     "For every deterministic automaton, membership, live/dead classification, maximum length, string counting, shortest-first enumeration and equivalence testing agree with the language obtained by direct simulation, and a learned automaton agrees with its oracle on every string it was taught.",
     ["inputs", "programs"], "all automata up to the stated number of states and alphabet size, all strings up to the stated length",
     "number of automata is exponential in states",
     [C + "dfa/__init__.py", C + "dfa/lstar.py"],
     [("DFA.matches/is_dead/max_length/count_strings/all_matching_regions/canonicalise/equivalent", C + "dfa/__init__.py"), ("LStar.learn/dfa", C + "dfa/lstar.py")])

prop("C30", "Health checks and statistics counters trigger exactly at their limits",
     "For any history of test outcomes and draw times, the too-much-filtering, data-too-large and too-slow health checks fail exactly when their documented limits are reached before enough valid examples were seen, never after a failure was found, and a suppressed health check never fails the test.",
     ["histories", "configurations"], "all histories of outcomes and times within bounds, from arbitrary valid counter states",
     "history-dependent counters",
     [C + "engine.py", "internal/healthcheck.py"],
     [("ConjectureRunner.record_for_health_check", C + "engine.py"), ("fail_health_check", "internal/healthcheck.py")])

# ---- properties this family cannot reach here ----
prop("N01", "Printed failing examples evaluate back to the failing arguments",
     "The call printed for a minimal failing example, when evaluated, constructs arguments equal to those that made the test fail.",
     ["inputs", "programs"], "all values and user types",
     "arbitrary user reprs", ["vendor/pretty.py", "internal/reflection.py"], [("RepresentationPrinter", "vendor/pretty.py")])
prop("N02", "from_regex() only generates strings that match the pattern",
     "Every string generated for a regular expression matches it (fully when full matching is requested) and stays within the given alphabet.",
     ["inputs", "programs"], "all patterns and all choice sequences", "patterns are arbitrary programs for a C matcher",
     [S + "regex.py"], [("regex_strategy final filter", S + "regex.py")])
prop("N03", "Ghost-written tests are valid and runnable Python",
     "Source code produced by the test ghostwriter for any importable function compiles and imports what it uses.",
     ["programs"], "all Python callables", "arbitrary user code", ["extra/ghostwriter.py"], [("magic/fuzz/…", "extra/ghostwriter.py")])
prop("N04", "Strategies inferred from type annotations produce instances of the type",
     "A value drawn from the strategy inferred for a type is an instance of that type.",
     ["programs", "inputs"], "all resolvable types", "types are arbitrary programs", [S + "types.py", S + "core.py"], [("_from_type, _global_type_lookup", S + "types.py")])
prop("N05", "Background database writes are thread-safe and not lost",
     "Operations issued from several threads against a background-write database are each applied exactly once and are visible to a later fetch.",
     ["schedules"], "all thread interleavings", "schedules are not controlled by tests", ["database.py"], [("BackgroundWriteDatabase queue and worker", "database.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
