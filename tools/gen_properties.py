#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, observe, state=None, over=("inputs",)):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Equality is an equivalence relation with uniform missing-value rules",
  "Elementwise equality and whole-object equality are reflexive, symmetric and transitive over all vector types once missing values are compared as values: NA equals only NA, NaN equals only NaN, -0 equals +0, and strings are equal when they denote the same text. When missing values propagate instead, the answer is NA exactly when either side is missing and otherwise the same as before. Whole-object equality also compares attributes, in both directions, and a data frame row is equal to another exactly when every column is.",
  "every pair (and triple) of vectors of every supported type and size, including NA, NaN, signed zero, lists, nested data frames and attributes",
  "Tests compare a handful of literals per type; reflexivity/symmetry/transitivity quantify over all pairs and triples of bit patterns and attribute lists.",
  ["src/equal.h", "src/equal.c", "src/missing.h", "src/poly-op.c", "R/equal.R"],
  [("per-type scalar equality", "src/equal.h *_equal_na_equal / *_equal_na_propagate"), ("NaN/NA classification", "src/utils.c dbl_classify"),
   ("vector equality loops", "src/equal.c vec_equal"), ("row equality by column reduction", "src/equal.c df_equal"), ("object equality", "src/equal.c equal_object_normalized, vec_equal_attrib")],
  ["vec_equal()", "obj_equal()", "vec_equal_na()"])

p("C02", "Comparison is a total order consistent with equality",
  "Elementwise three-way comparison returns -1, 0 or 1, is antisymmetric and transitive, and returns 0 exactly when the elements are equal with missing values compared as values; missing values come before every other value, and NA before... NaN per the documented convention. Data frame rows compare lexicographically by column. Comparison never traps, whatever the encodings or bit patterns of the elements.",
  "every pair and triple of elements of every comparable type, every data frame shape",
  "Tests check a few literals; totality, transitivity and absence of traps range over all bit patterns and strings.",
  ["src/compare.h", "src/compare.c", "R/compare.R"],
  [("per-type scalar comparison", "src/compare.h *_compare_na_equal / *_compare_na_propagate"), ("vector loop", "src/compare.c vec_compare"), ("row comparison", "src/compare.c df_compare")],
  ["vec_compare()"])
P[-1]["statement"] = ("Elementwise three-way comparison returns -1, 0 or 1, is antisymmetric and transitive, and returns 0 exactly when the two elements are equal with missing values compared as values; missing values come before every other value, and if missing values propagate the answer is NA exactly when either element is missing. Data frame rows compare lexicographically by column. Comparison never traps, whatever the encodings or bit patterns of the elements.")

p("C03", "Matching returns the first equal element for every needle",
  "For every needle, matching returns the smallest haystack position whose element is equal to it (missing values equal to themselves), or NA when there is none; membership is true exactly when such a position exists. If missing values propagate, a missing (or incomplete) needle gives NA instead. The answer never depends on hashing, table size or order of insertion.",
  "all needle/haystack vectors of any type and size, any hash values including total collision",
  "Tests sample few keys and essentially never force collisions, wrap-around probing or load-factor edges.",
  ["src/dictionary.c", "src/dictionary.h", "src/hash.c", "src/equal.h", "R/dictionary.R"],
  [("open addressing probe", "src/dictionary.c dict_hash_with"), ("table sizing", "src/dictionary.c dict_key_size, u32_safe_ceil2"),
   ("element hashing", "src/hash.c hash_fill and scalar hashes"), ("match loop", "src/dictionary.c vec_match_params, vec_in")],
  ["vec_match()", "vec_in()"],
  state=[("dict key table", "slot -> position of first element with that key, or empty", "src/dictionary.h struct dictionary")])

p("C04", "Unique, duplicate and id functions respect first appearance",
  "Unique locations are exactly, and in increasing order, the positions whose element equals no earlier element; a position is flagged as duplicated exactly when some other position holds an equal element; the id of a position is the first position holding an equal element. Counts list each distinct value once with the number of its occurrences, summing to the size.",
  "all vectors of any type and size, any hash values including total collision",
  "Tests use small literals; correctness is a statement over all vectors and collision patterns.",
  ["src/dictionary.c", "src/hash.c", "R/dictionary.R"],
  [("unique locations", "src/dictionary.c vec_unique_loc"), ("duplicates", "src/dictionary.c vec_duplicated, vctrs_duplicated_any"),
   ("ids", "src/dictionary.c vctrs_id"), ("counts", "src/dictionary.c vctrs_count"), ("distinct count", "src/dictionary.c vctrs_n_distinct")],
  ["vec_unique_loc()", "vec_unique()", "vec_duplicate_detect()", "vec_duplicate_any()", "vec_duplicate_id()", "vec_unique_count()", "vec_count()"])

p("C05", "Grouping partitions positions by equality in first-appearance order",
  "Group identifiers are 1..n with n the number of distinct elements, two positions share an identifier exactly when their elements are equal, and identifiers increase in order of first appearance. Group locations list, for each distinct element in that order, exactly its positions in increasing order, and splitting slices along them. Run-length grouping describes the maximal runs of equal neighbours with those identifiers.",
  "all vectors of any type and size, any hash values",
  "Tests sample small vectors; the partition property is universally quantified over positions and inputs.",
  ["src/group.c", "src/dictionary.c", "src/split.c", "R/group.R", "R/split.R"],
  [("group ids", "src/group.c vctrs_group_id"), ("run-length groups", "src/group.c vctrs_group_rle"), ("locations", "src/group.c vec_group_loc"), ("split", "src/split.c vec_split")],
  ["vec_group_id()", "vec_group_rle()", "vec_group_loc()", "vec_split()"])

p("C06", "Run functions identify exactly the maximal runs",
  "A position starts a run exactly when it is first or its element differs from the previous one, and ends a run exactly when it is last or differs from the next; run identifiers count run starts, run sizes are positive and sum to the size, and run bounds tile 1..n. For data frames, rows differ exactly when some column differs. Unrepeating and then repeating gives back the input.",
  "all vectors and data frames of any type and size, all run patterns",
  "Tests sample a few run patterns per type; each per-type loop must be right for all sizes and patterns.",
  ["src/runs.c", "src/rep.c", "R/runs.R", "R/rep.R"],
  [("run identification loops", "src/runs.c vec_identify_runs, df_identify_runs"), ("run detection", "src/runs.c vec_detect_run_bounds"), ("bounds", "src/runs.c vec_locate_run_bounds"), ("unrep", "src/rep.c vec_unrep")],
  ["vec_identify_runs()", "vec_run_sizes()", "vec_detect_run_bounds()", "vec_locate_run_bounds()", "vec_unrep()"])

p("C07", "Missing and complete detection is exact",
  "An element is reported missing exactly when it is the type's missing value (NA or NaN for doubles, either part for complex, a null list element), and a data frame row is missing exactly when all of its columns are missing; a row is complete exactly when no leaf column is missing there. The any-missing answer is true exactly when some element is reported missing.",
  "all vectors and (nested) data frames of any type, size and missing pattern",
  "Tests sample patterns; each type-specific loop, the short-circuited row reduction and the nested recursion must hold for all patterns.",
  ["src/missing.c", "src/missing.h", "src/complete.c", "R/missing.R", "R/complete.R"],
  [("per-type missing predicates", "src/missing.h"), ("detection loops", "src/missing.c vec_detect_missing"), ("row reduction", "src/missing.c df_detect_missing"), ("first missing", "src/missing.c vec_first_missing"), ("completeness", "src/complete.c vec_detect_complete")],
  ["vec_detect_missing()", "vec_any_missing()", "vec_detect_complete()", "vec_slice_complete()", "vec_locate_complete()"])

p("C08", "Slicing selects exactly the requested elements",
  "The k-th element of a slice is the element at the k-th location, or the type's missing value when that location is missing, for every vector type, array (along the first dimension) and data frame (all columns), and the slice has as many elements as there are locations. Names and row dimensions travel with their elements; type and other attributes are preserved. Slicing never reads outside its input and never changes it.",
  "all vectors, arrays and data frames, all valid location vectors (including compact and repeated ones), all sizes",
  "Tests sample few index vectors; element correctness and in-bounds access is a statement over all of them.",
  ["src/slice.c", "src/slice-array.c", "R/slice.R"],
  [("typed slice loops", "src/slice.c SLICE_SUBSCRIPT / SLICE_COMPACT_REP / SLICE_COMPACT_SEQ"), ("array slices", "src/slice-array.c"), ("dispatch", "src/slice.c vec_slice_unsafe")],
  ["vec_slice()", "vec_init()"])

p("C09", "Assignment changes exactly the assigned elements, on a private copy",
  "After assigning a value at a set of locations, each assigned position holds the corresponding (recycled) value element, with later assignments winning for repeated locations and missing locations ignored, and every other position is unchanged, as are size and type. The caller's original vector is never modified. Assignment never writes outside the vector.",
  "all vectors, arrays and data frames, all location vectors, all values of size 1 or matching size",
  "Tests sample few index/value pairs; the frame condition quantifies over every untouched position and every alias of the input.",
  ["src/slice-assign.c", "src/slice-assign-array.c", "src/owned.h", "R/slice.R"],
  [("typed assign loops", "src/slice-assign.c ASSIGN_INDEX / ASSIGN_COMPACT"), ("copy-on-write", "src/utils.c vec_clone_referenced"), ("array assign", "src/slice-assign-array.c")],
  ["vec_assign()", "`vec_slice<-`()"])

p("C10", "Subscript resolution yields the documented locations or an error",
  "Resolving a subscript of size-n data gives integer locations in 1..n (or NA, or beyond n only where extension was requested) that denote exactly the subscript's meaning: positive values select, negative values select the complement in order, logical values select the true positions with NA kept as NA, names select the first matching name; zeros are dropped, kept or rejected as asked. Every other subscript is rejected with an error, never silently truncated.",
  "all subscripts of all types and sizes, all n, all option combinations",
  "Tests sample option combinations on short subscripts; the meaning is universally quantified.",
  ["src/subscript-loc.c", "src/subscript.c", "src/rlang/vec-lgl.c", "R/subscript-loc.R"],
  [("integer subscripts", "src/subscript-loc.c int_as_location"), ("negative inversion", "src/subscript-loc.c int_invert_location"), ("zero filtering", "src/subscript-loc.c int_filter_zero"),
   ("logical subscripts", "src/subscript-loc.c lgl_as_location"), ("double subscripts", "src/subscript-loc.c dbl_cast_subscript"), ("which", "src/rlang/vec-lgl.c r_lgl_which")],
  ["vec_as_location()", "num_as_location()", "vec_as_location2()"])

p("C11", "Repetition produces exactly the requested copies",
  "Repeating a vector of size n as a whole t times gives the element at position ((k-1) mod n)+1 for each k in 1..n*t, and repeating each element i t_i times gives each element t_i consecutive times in order. Negative or missing times and any result too large to be represented are rejected with an error and never wrap around.",
  "all vectors and all times (scalar or per element), up to the largest representable result",
  "Tests cannot allocate near-overflow results nor enumerate all times vectors.",
  ["src/rep.c", "R/rep.R"],
  [("whole repetition", "src/rep.c vec_rep"), ("elementwise repetition", "src/rep.c vec_rep_each_uniform, vec_rep_each_impl"), ("overflow guards", "src/rep.c multiply_would_overflow, plus_would_overflow")],
  ["vec_rep()", "vec_rep_each()"])

p("C12", "Filling uses the nearest preceding or following observed value",
  "Filling down replaces each missing element by the closest preceding non-missing one, provided it is within the maximum distance if one is given, and filling up by the closest following one; the two-way directions additionally fill the remaining leading (or trailing) missing elements from the first (or last) non-missing one. All non-missing elements and all elements that cannot be filled are left unchanged.",
  "all missing patterns of all sizes, all directions, all maximum distances",
  "Tests sample a few patterns; nearest-neighbour correctness is universally quantified over patterns.",
  ["src/fill.c", "R/fill.R"],
  [("down/up loops", "src/fill.c vec_fill_missing_down, vec_fill_missing_up and *_with_max_fill")],
  ["vec_fill_missing()"])

p("C13", "Recycling and common size follow one consistent rule",
  "The common size of a set of sizes is the unique size different from 1 if there is exactly one, 1 if all are 1, and an error otherwise, whatever the order of the inputs; NULL inputs are ignored. Recycling to size n returns the input unchanged if it has size n, n copies of its only element if it has size 1, and an error otherwise. The size of a data frame is its row count, of an array its first dimension, otherwise its length.",
  "all tuples of sizes in every order, all vectors",
  "Tests sample pairs; order-independence and exact acceptance are statements over all tuples.",
  ["src/size.c", "src/size-common.c", "R/size.R", "R/recycle.R"],
  [("pairwise rule", "src/size-common.c vctrs_size2_common"), ("recycling", "src/size.c vec_recycle, vec_check_recycle"), ("size", "src/size.c vec_raw_size, df_rownames_size")],
  ["vec_size()", "vec_size_common()", "vec_recycle()", "vec_recycle_common()"])

p("C14", "Common type is symmetric and recycling of shapes is order-independent",
  "The common type of two base types does not depend on their order, is the type itself for equal types, is absorbing for unspecified and NULL, and is associative wherever defined; incompatible types are rejected whichever comes first. The common shape of two arrays is, per dimension, the recycled extent, again independent of the order.",
  "all ordered pairs and triples of types, all dimension vectors",
  "Tests check selected pairs; symmetry and associativity range over all pairs/triples and all dims.",
  ["src/typeof2.c", "src/ptype2.c", "src/shape.c", "src/typeof2-s3.c", "R/type2.R", "R/shape.R"],
  [("type-pair table", "src/typeof2.c vec_typeof2_impl"), ("base common types", "src/ptype2.c vec_ptype2_switch_native"), ("shape", "src/shape.c vec_shape2, vec_dim2")],
  ["vec_ptype2()", "vec_ptype_common()"])

p("C15", "Casts between base types are exact or rejected",
  "Casting between logical, integer and double either returns a vector whose every element denotes the same value (missing for missing) or signals a loss exactly when some element is not representable in the target; it never truncates, rounds, wraps or drops elements. Casting preserves size, and casting a vector to its own type is the identity.",
  "all element values (all 2^32 integers, all 2^64 doubles), all sizes",
  "Tests sample a few boundary values; exactness ranges over all bit patterns.",
  ["src/cast-bare.c", "src/cast.c", "R/cast.R", "R/type-bare.R"],
  [("lossy casts", "src/cast-bare.c int_as_logical, dbl_as_logical, dbl_as_integer"), ("widening", "src/cast-bare.c lgl_as_integer, lgl_as_double, int_as_double")],
  ["vec_cast()"])

p("C16", "Ordering is a stable sorted permutation with missing values placed as asked",
  "The order of a vector is a permutation of 1..n that sorts it in the requested direction with missing (and NaN, if distinguished) values on the requested side, ties keeping their original order, for every type and for data frames lexicographically by column with per-column options. Ranks, sorted groups and sorting are consistent with that order.",
  "all vectors and data frames of all sizes, directions, missing placements and tie patterns",
  "The radix/counting/insertion paths switch on data-dependent thresholds; tests sample few sizes around them.",
  ["src/order.c", "src/order-groups.c", "src/order-sortedness.c", "src/rank.c", "R/order.R", "R/rank.R"],
  [("key maps", "src/order.c int_adjust, dbl_map_to_uint64"), ("sortedness shortcut", "src/order-sortedness.c"), ("rank from groups", "src/rank.c")],
  ["vec_order_radix (vec_order)", "vec_sort()", "vec_rank()", "vec_locate_sorted_groups()"])

p("C17", "64-bit integer proxy round-trips and preserves order and missingness",
  "Converting a 64-bit integer vector to its comparison proxy and back returns the same vector bit for bit, and two values compare (and are equal, and are missing) exactly as their proxies do.",
  "all 2^64 values and pairs of values, all sizes",
  "Tests sample a few values around the sign boundary.",
  ["src/type-integer64.c", "R/type-integer64.R"],
  [("pack/unpack", "src/type-integer64.c int64_unpack, int64_pack"), ("proxy / restore loops", "src/type-integer64.c vctrs_integer64_proxy, vctrs_integer64_restore")],
  ["vec_proxy_compare()/vec_proxy_equal() for integer64", "vec_order(), vec_compare(), vec_unique() for integer64"])

p("C18", "Set operations agree with set semantics in first-appearance order",
  "Intersection, union, difference and symmetric difference contain each qualifying distinct element exactly once, in order of first appearance in the first input followed by the second input, where elements are compared with missing values equal to themselves. The result has the common type of both inputs.",
  "all pairs of vectors of compatible types",
  "Tests sample small sets; exact membership/order quantify over all inputs.",
  ["src/set.c", "src/dictionary.c", "R/set.R"],
  [("set loops", "src/set.c vec_set_intersect, vec_set_difference, vec_set_union, vec_set_symmetric_difference")],
  ["vec_set_intersect()", "vec_set_difference()", "vec_set_union()", "vec_set_symmetric_difference()"])

p("C19", "Combining, chopping and interleaving place every element exactly once",
  "Combining vectors yields their elements in order with the common type; chopping by a list of locations yields the corresponding slices, and unchopping with the same locations puts every element back at its location; interleaving r vectors of size n puts element j of input i at position (j-1)*r+i. Names follow their elements.",
  "all lists of compatible vectors (with NULLs and size-1 recycling where documented), all location lists",
  "Tests sample small lists; placement is universally quantified.",
  ["src/c.c", "src/c-unchop.c", "src/slice-chop.c", "src/slice-interleave.c", "R/c.R", "R/slice-chop.R", "R/slice-interleave.R"],
  [("combine loop", "src/c.c vec_c_opts"), ("unchop", "src/c-unchop.c list_unchop"), ("chop", "src/slice-chop.c vec_chop"), ("interleave indices", "src/slice-interleave.c")],
  ["vec_c()", "list_unchop()", "vec_chop()", "vec_interleave()"])

p("C20", "Grid expansion enumerates the full cartesian product in order",
  "Expanding a set of inputs gives one row for every combination of their elements, each exactly once, with the first input varying slowest (or fastest, as asked); the number of rows is the product of the sizes, and a product too large to represent is rejected rather than wrapped. NULL inputs are dropped.",
  "all tuples of inputs and sizes",
  "Tests sample two or three small inputs; near-overflow products and general index arithmetic are not reachable.",
  ["src/expand.c", "src/rep.c", "R/expand.R"],
  [("index arithmetic", "src/expand.c vec_expand_grid"), ("overflow", "src/expand.c")],
  ["vec_expand_grid()"])

p("C21", "Factor levels combine and recode without changing any label",
  "The common type of two factors has the first factor's levels followed by the second's new levels, each once, and casting a factor to a type whose levels include all of its values keeps the label of every element and keeps missing elements missing; a value whose label is not among the target levels is never silently mapped to another label. Converting between factors and strings is label-preserving.",
  "all factors and level sets",
  "Tests sample small level sets; label preservation is a statement over all levels and codes.",
  ["src/type-factor.c", "R/type-factor.R"],
  [("level union", "src/type-factor.c levels_union"), ("recode loop", "src/type-factor.c fct_as_factor"), ("string conversion", "src/type-factor.c fct_as_character, chr_as_factor")],
  ["vec_ptype2()/vec_cast() for factors"])

p("C22", "Every allocation stays protected under any garbage-collection schedule",
  "No operation leaves the interpreter's protection stack unbalanced on return, and no operation uses a value it allocated after a point where the garbage collector could have reclaimed it. Hence results do not depend on when garbage collection happens.",
  "every execution path of every native function, every garbage-collection schedule",
  "Tests run with rare collections; a missing protection needs a collection at one specific allocation to show.",
  ["src/rlang/rlang.h", "src/*.c"],
  [("KEEP/FREE discipline", "src/rlang/rlang-types.h KEEP, FREE; every function")],
  ["R_PPStackTop balance of every .Call", "gctorture"], over=("programs", "schedules", "inputs"))

p("C23", "Interval merging and complements cover exactly the same points",
  "Merging a set of intervals returns the minimal set of disjoint intervals covering exactly the same points (missing intervals grouped as documented), locating containers returns those intervals not contained in another, and the complement covers exactly the uncovered points between the bounds.",
  "all sets of intervals of any type and size",
  "Tests sample small sets.",
  ["src/interval.c", "R/interval.R"],
  [("merge sweep", "src/interval.c vec_interval_locate_groups"), ("containers", "src/interval.c vec_interval_locate_containers"), ("complement", "src/interval.c vec_interval_complement")],
  ["vec_interval_groups()", "vec_interval_locate_containers()", "vec_interval_complement()"])

p("C24", "Joins return exactly the matching pairs in order",
  "Locating matches between needles and haystack returns exactly the pairs satisfying every requested condition, filtered and restricted by the multiple, filter, no-match, incomplete and remaining options as documented, ordered by needle and then haystack position.",
  "all needle/haystack data frames, all conditions, filters and options",
  "Tests sample few shapes; the nested binary search must be right for all.",
  ["src/match.c", "src/match-joint.c", "src/match-compare.h", "R/match.R"],
  [("recursive binary search", "src/match.c df_locate_matches_recurse"), ("expansion", "src/match.c expand_compact_indices")],
  ["vec_locate_matches()"])

p("C25", "Name repair always yields names with the requested guarantee",
  "After unique repair all names are non-empty, not missing, pairwise distinct and free of positional suffix artefacts, names that were already valid and unique are unchanged, and repair is idempotent; minimal repair only replaces missing names by empty ones.",
  "all character vectors",
  "Tests sample a few name sets.",
  ["src/names.c", "R/names.R"],
  [("uniqueness repair", "src/names.c as_unique_names_impl, suffix_pos")],
  ["vec_as_names()"])

p("C26", "Row and column binding align and keep every cell",
  "Row-binding data frames yields the union of their columns in first-appearance order with each input's rows in order and missing values where an input lacks a column; column-binding yields all columns in order, recycled to the common size.",
  "all lists of data frames and vectors",
  "Tests sample small frames.",
  ["src/bind.c", "R/bind.R"],
  [("row binding", "src/bind.c vec_rbind"), ("column binding", "src/bind.c vec_cbind")],
  ["vec_rbind()", "vec_cbind()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
# ---- statement text that replaces the above
def st(id, text): next(q for q in P if q["id"] == id)["statement"] = text
st("C01", "Elementwise equality and whole-object equality are reflexive, symmetric and transitive over all vector types once missing values are compared as values: NA equals only NA, NaN equals only NaN, -0 equals +0, and strings are equal when they denote the same text. When missing values propagate instead, the answer is NA exactly when either side is missing and otherwise the same as before, and for data frame rows the first column that differs or is missing on either side decides. Whole-object equality also compares attributes (by name and value, pairwise in stored order), in both directions.")
st("C02", "Elementwise three-way comparison returns -1, 0 or 1, is antisymmetric and transitive, and returns 0 exactly when the two elements are equal with missing values compared as values; missing values come before every other value (NaN before NA), and if missing values propagate the answer is NA exactly when either element is missing. Data frame rows compare lexicographically: the first column that decides gives the answer. Comparison never traps, whatever the encodings or bit patterns of the elements.")
st("C14", "The common type of two base types does not depend on their order, is the type itself for equal types, is absorbing for unspecified and NULL, and is associative wherever every intermediate common type exists; incompatible types are rejected whichever comes first. The common shape of two arrays is, per dimension, the recycled extent, again independent of the order.")
st("C21", "The common type of two factors has the first factor's levels followed by the second's new levels, each once, and casting a factor to a factor type whose levels include all of its levels keeps the label of every element and keeps missing elements missing. A value whose label is not among the target levels is never silently mapped to another label or to missing. Converting between factors and strings is label-preserving.")
for q in P: assert len(q["title"]) <= 80, q["id"]

with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
