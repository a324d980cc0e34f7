"""What each check runs: engine jobs (harness, parameter, seconds), the cover
points that must be reached, and the bounds in words."""

CRATES = ["hand", "pest", "pest_recursive", "serde", "iter", "locations", "singular"]
HAND, PEST, REC, SERDE, ITER, LOC, SING = range(7)
ALL = range(7)
PESTS = range(1, 7)


def syn(h, crates, groups, secs, ext=True):
    """Text harnesses: parameter = group * 8 + crate."""
    j = []
    for k in crates:
        for g in groups:
            j.append((h, g * 8 + k, secs))
    if ext and SING in crates:
        j.append((h, 2 * 8 + SING, secs))
    # the short ones first
    return sorted(j, key=lambda x: (x[1] // 8 < 2, x[1] // 8))


TEXT_BOUNDS = (
    "texts: (a) every completion of the templates of harness/src/syntax.rs (FREE: 33 templates, at most three unconstrained "
    "Unicode scalar values or ASCII characters in every lexical position: start, after $, after '.', inside brackets, around slices, "
    "inside strings and escapes, inside filters, around operators, inside function calls); (b) every text one character away "
    "(insertion, replacement by any Unicode scalar of four UTF-8 length classes, deletion, truncation, at every position) from the base queries of "
    "harness/src/text.rs (BASES; EXT_BASES for the singular-selector crate); (c) FREE_TOKENS: twelve templates with free characters between tokens; (d) string literals with free characters and free "
    "hexadecimal digits (STRINGS); (e) number literals with up to 15 free digits (INTS, FRACS, EXPS) as literals, indices and slice bounds; (f) logical expressions of up to five operands: twelve shapes of "
    "parentheses and negations with every choice of operators (LOGIC); (g) calls of the standard functions with every kind of argument in twelve contexts; (h) big texts: 16 of each kind of part, names, strings "
    "and blanks of 300 characters, nesting to 16, each with free characters (BIG). Longer or more deeply nested texts are outside the bound."
)

# the evaluators of harness/src/mk.rs: recursive, loop, iterator, locations, singular
EV = range(5)


def ev(h, evs, groups, secs):
    """Evaluation harnesses: parameter = group * 8 + evaluator."""
    return [(h, g * 8 + e, secs) for g in groups for e in evs]


EV_BOUNDS = (
    "Each of the five evaluators (find, find_loop, QueryIter, the locations crate, the singular-selector crate) against the reference evaluator of harness/src/eval.rs: same nodes (by address), "
    "same order, same locations. Queries are built as syntax trees. "
)

NOT_APPLICABLE = {}

CHECKS = {
    "C01": dict(
        title="parse returns for every text",
        jobs=syn(1, ALL, [0, 1, 3, 4, 5, 6, 7, 8], 100),
        bounds=TEXT_BOUNDS + " A call that takes more than 20 million IR steps counts as a hang. The stack is unbounded: nesting depth is outside the claim.",
        covers={1: [1, 2]},
    ),
    "C02": dict(
        title="pest-based acceptance",
        jobs=syn(2, PESTS, [0, 1, 3, 4, 5, 6, 7, 8], 100),
        bounds=TEXT_BOUNDS,
        covers={2: [1, 2]},
    ),
    "C03": dict(
        title="hand-crafted acceptance",
        jobs=syn(3, [HAND], [0, 1, 3, 4, 5, 6, 7, 8], 100),
        bounds=TEXT_BOUNDS,
        covers={3: [1, 2]},
    ),
    "C04": dict(
        title="the tree denotes the text",
        jobs=syn(4, ALL, [0, 1, 3, 4, 5, 6, 7, 8], 100),
        bounds=TEXT_BOUNDS,
        covers={4: [3]},
    ),
    "C05": dict(
        title="print and parse again",
        jobs=syn(5, ALL, [0, 1, 3, 6, 7, 8, 9, 10], 100),
        bounds=TEXT_BOUNDS + " Of (d) the literals without free digits and all names, and of (e) the numbers of SMALL (up to four free digits). Digits of texts with a filter are enumerated, not symbolic, because printing a symbolic floating point number is out of the solver's reach.",
        covers={5: [1, 2]},
    ),
    "C06": dict(
        title="string literals",
        jobs=syn(6, ALL, [0, 1, 2, 3, 4, 5], 100, ext=False),
        thorough=syn(6, ALL, [0, 1, 2, 3, 4, 5, 6], 900, ext=False),
        bounds="quoted names and string literals in every place the grammar allows them (bracketed name, comparison, function argument, both quote styles): up to two units of "
        "any Unicode scalar value, any escape character, \\uXXXX with the four digits free (any ASCII character), and pairs of \\u escapes with the high/low "
        "surrogate digits free (thorough: all eight characters free).",
        covers={6: [1, 2]},
    ),
    "C07": dict(
        title="number literals",
        jobs=syn(7, ALL, [0, 1, 2, 3, 4], 100, ext=False),
        bounds="number literals of the templates INTS, FRACS and EXPS of harness/src/syntax.rs: integers of up to 22 digits (all digits free up to 15, the last ones free around 2^53, 2^63 and 2^64), "
        "decimal fractions, exponents of either sign and case with up to three free digits, each in every place a number can stand; the integers also as indices and slice bounds. The value of a decimal text with a fraction or an exponent is taken from "
        "the standard library's str::parse::<f64>, which is correctly rounded.",
        covers={7: [1, 2]},
    ),
    "C08": dict(
        title="well-typed function calls",
        jobs=syn(8, ALL, [0, 1, 2, 3, 5, 6], 100, ext=False) + [(8, 4 * 8 + HAND, 60), (8, 4 * 8 + REC, 60)],
        bounds="calls of one, two and three functions with every signature of up to three parameters (the types are symbolic), in place of a standard function too, with every kind of argument of ARGS "
        "in harness/src/syntax.rs, nested to depth three, in the eleven contexts of CALLS; up to two free ASCII characters in the name and around the arguments; every text one "
        "character away from four nested calls. Functions are registered as a signature (and through add_function where the crate has it).",
        covers={8: [1, 2]},
    ),
    "C09": dict(
        title="token spans and error positions",
        jobs=[(9, g, 100) for g in (3, 4, 6, 8, 0, 1)],
        bounds=TEXT_BOUNDS + " (e) and (g) are left out. The hand-crafted crate only: no other has tokens or positions.",
        covers={9: [1, 2]},
    ),
    "C10": dict(
        title="indices and slices",
        jobs=ev(10, EV, [0, 1, 2, 3], 60),
        bounds=EV_BOUNDS + "Arrays of zero to four elements, an object with the members 0 and -1, a string and a number; every index, start, end and step "
        "in [-(2^53-1), 2^53-1], each absent or present; at the top level and inside a filter query. Arrays of 5, 9, 16 and 40 elements: every index; for 5 and 9 one symbolic bound or step, otherwise fourteen values around the ends (and the extremes) for start and end with ten steps.",
        covers={10: [1, 2]},
    ),
    "C11": dict(
        title="selectors, segments and nodelists",
        jobs=ev(11, EV, [0, 1, 2, 4, 5], 60),
        thorough=ev(11, EV, [0, 1, 2, 4, 5, 3], 600),
        bounds=EV_BOUNDS + "Nine document shapes of at most nine nodes and depth three with symbolic member names (one letter; in group 2 any one or two Unicode scalar "
        "values, coinciding or not); one segment with any of thirteen lists of up to three selectors, two segments of one selector each, child or descendant; ten bigger documents (eight levels, 14 members, 13 elements, arrays in arrays, names that look like syntax) under thirty bigger queries (up to seven segments, up to eight selectors, symbolic names) and under every slice with start, end and step in [-3, 3]; "
        "thorough adds three segments.",
        covers={11: [1, 2]},
    ),
    "C12": dict(
        title="comparisons",
        jobs=ev(12, EV, [0, 1, 2, 3, 4, 5], 90),
        bounds=EV_BOUNDS + "Six operators; operands: Nothing, null, true, false, every integer in [-(2^53-1), 2^53-1], every finite double, strings of up to two scalar values "
        "(of every UTF-8 length), arrays and objects of up to two members and depth two with symbolic keys and leaves; written as a singular query on @ or $, a literal, "
        "value() or length(). Strings that differ in any one Unicode scalar after a common prefix of 0 to 40 characters, or in length; arrays of up to 12 and objects of up to 8 members with one symbolic element, name or value, inserted in different orders; six levels. Integers beyond 2^53 in documents are outside (C19 covers that they do not panic).",
        covers={12: [1, 2, 3, 4]},
    ),
    "C13": dict(
        title="logic, existence, scope",
        jobs=ev(13, EV, [0, 1, 2, 3, 4, 5], 90),
        bounds=EV_BOUNDS + "Ten kinds of tests, alone, negated once and twice; every pair of eight under && || and ! (six shapes), triples in five shapes; element values of every kind with "
        "symbolic numbers, members present or absent; nested filters of depth two and three that use @ and $ at every level, elements of arrays and members of objects; sixteen expressions over eight tests under twenty combinations of their truth; scope to depth four with symbolic members at the top, bottom and root.",
        covers={13: [1, 2]},
    ),
    "C14": dict(
        title="length, count, value",
        jobs=ev(14, EV, [0, 1, 3], 60),
        thorough=ev(14, EV, [0, 1, 3, 2], 900),
        bounds=EV_BOUNDS + "length() of Nothing, null, booleans, every I-JSON integer, every finite double, strings of up to three scalar values of every UTF-8 length, arrays and objects of up to three "
        "members, from a literal, a query and value(); count() and value() of the nodelists of up to one more segment (thorough: two) of C11's kinds over C11's documents; "
        "compared by six operators with an absent member or any I-JSON integer; strings, arrays and objects of up to 300; count() and value() of C11's bigger queries and of nodelists with duplicates.",
        covers={14: [1, 2]},
    ),
    "C15": dict(
        title="match and search",
        jobs=ev(15, EV, [0, 1, 2, 3, 4, 5, 7, 8], 90),
        thorough=ev(15, EV, [0, 1, 2, 3, 4, 5, 7, 8, 6], 600),
        bounds=EV_BOUNDS + "51 patterns with every I-Regexp construct, 31 invalid ones and eight templates with one free ASCII character, against strings of up to two free ASCII characters "
        "(thorough: three) or one of any UTF-8 length; every kind of argument; two and three evaluations in a row, and one after 204 other patterns; twenty pairs of patterns that differ in case, blanks, order or end, one after the other; ten patterns on eight longer texts. The pattern text is enumerated, "
        "not symbolic (compiling it is not encoded symbolically); the subject is. ^ and $ inside a pattern of more than one character of group 3 are outside.",
        covers={15: [1, 2]},
    ),
    "C16": dict(
        title="normalized paths",
        jobs=ev(16, EV, [0, 1, 2, 3, 4, 5], 60),
        bounds=EV_BOUNDS + "Member names of one scalar value of any kind, of two in five mixes, pairs of names; arrays of up to 12 elements; nesting of depth three; reached by wildcards, descendants, "
        "negative indices, reversed slices and filters. Twelve kinds of special names at two and four levels, any ASCII character within a name of up to 50; indices to 1023, at three levels to 100. Every location is parsed and evaluated again.",
        covers={16: [2]},
    ),
    "C17": dict(
        title="the persistent list",
        jobs=ev(17, [3, 4], [0, 1, 2, 4], 60),
        thorough=ev(17, [3, 4], [0, 1, 2, 4, 3], 600),
        bounds="Histories of three steps (thorough: four), each applied to any list made before, of prepend with any 8-bit value, tail, tailn, clone, collect; all lists compared with their own sequences at the end "
        "through iteration, length, head, last, lastn, front, find; equality, order and hash of pairs of lists of up to three elements; printing; lists of 9, 17, 33 and 300 elements under two operations.",
        covers={17: [1, 2]},
    ),
    "C18": dict(
        title="singular query selectors and the implicit root",
        jobs=[(18, 0, 60), (18, 1, 60), (18, 2, 100), (18, 3, 60), (18, 4, 60)],
        bounds="The singular-selector crate. Embedded queries of up to two selectors finding every kind of value (any i64, any u64, any finite double but those with an integral value, strings of up to two scalar "
        "values), used on arrays of up to four elements, objects, strings and null, in segments, descendants, filters and nested filters; an embedded query of five segments, with up to four in one segment, over arrays and objects of twelve members; texts without a root: eleven templates with two free characters, "
        "every text one character away from EXT_BASES.",
        covers={18: [1, 2, 3]},
    ),
    "C19": dict(
        title="evaluation is total",
        jobs=ev(19, EV, [0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], 90) + [(19, 5 * 8 + 4, 60)],
        bounds="All five evaluators. Any i64, any u64 and any finite double in a document or a literal, compared with the extremes and any finite double, inside arrays and objects, as arguments of every function; "
        "every index and slice bound in [-(2^53-1), 2^53-1]; the base queries over documents with any numbers; the depth of the machine stack over 96 nodes of ten query shapes; the bigger documents and queries of C10 to C16. "
        "A call that takes more than 20 million IR steps counts as a hang. The nesting depth of documents and queries is outside.",
        covers={19: [1, 2, 3]},
    ),
    "C20": dict(
        title="evaluators agree",
        jobs=[(20, g, 100) for g in range(15)],
        bounds="All five evaluators at once: two segments of C11's kinds, one filter of C13's kinds, every text one character away from BASES and every completion of FREE, over documents with symbolic names and numbers; "
        "two lazy iterators interleaved, one up to two nodes ahead, one dropped early; the bigger documents and queries of C10 to C16.",
        covers={20: [1, 2]},
    ),
    "C21": dict(
        title="functions registered by the user",
        jobs=ev(21, EV, [0, 1, 2, 4], 90),
        thorough=ev(21, EV, [0, 1, 2, 4, 3], 600),
        bounds=EV_BOUNDS + "Eight functions of the harness covering every parameter and result type, with every kind of argument (queries, literals, logical expressions, calls of each result type), "
        "one and three parameters, compared and tested, over elements with symbolic numbers and members; every signature of up to three parameters and three of five, with two to eight arguments of each type.",
        covers={21: [1, 2]},
    ),
}

ASSUMPTIONS = [
    "rustc's LLVM IR (nightly, opt-level 1, overflow checks and debug assertions on, fat LTO) denotes the crate; x86-64",
    "allocation never fails; the stack is unbounded",
    "the engine's IR semantics (validated by native replay of sampled paths) and z3 are trusted",
]
