"""The scenarios of every property: harness number, parameters, bounds."""

ASSUMPTIONS = [
    "The encoded program is the LLVM IR rustc emits in release mode for the harness plus papyri_lang (all of it, std and dependencies included) from /repo's working tree; the native replay is a debug build of the same source.",
    "Hashing of names uses a stub with every string of equal length colliding; the network client always fails; the third-party syntax highlighter may split its input in any way the solver chooses.",
    "Recursion within an 8 MB stack; memory allocation never fails.",
    "Symbolic characters range over all ASCII bytes or the 512 characters of eight non-ASCII blocks (Latin-1, Greek, general punctuation, CJK punctuation, U+FEC0-FEFF, Deseret, emoji).",
]

CHECKS = {}


def check(pid, *scs, assumptions=()):
    CHECKS[pid] = {"scenarios": list(scs), "assumptions": list(assumptions)}


def S(name, h, p, bound, covers=1, **kw):
    return dict(name=name, h=h, p=list(p), bound=bound, covers=covers, **kw)


T = dict(thorough=True)

# ---- C01
check("C01",
      S("ascii-3", 1, [0, 2], "every source text of 3 ASCII bytes", 3),
      S("chars-2", 1, [0, 5], "every source text of 2 characters", 3),
      S("replace", 1, [1, 0, 75, 1], "74 programs covering every construct, each with any one character replaced by any ASCII character", 3),
      S("edit", 1, [1, 0, 75, 60], "the same programs with any one character replaced by a non-ASCII one, deleted or doubled, or cut off anywhere", 3),
      S("ascii-4", 1, [0, 3], "every source text of 4 ASCII bytes", 3, **T),
      S("chars-3", 1, [0, 6], "every source text of 3 characters", 3, **T),
      S("insert", 1, [1, 0, 75, 2], "the same programs with any ASCII character inserted anywhere", 3, **T),
      S("two", 1, [1, 0, 75, 64], "the same programs with any two adjacent characters replaced by any ASCII characters", 3, t=3000, **T))

# ---- C03
CTX = ["text of a paragraph", "text of an inline tag", "verbatim attribute", "template attributes", "spread attribute", "escape_html", "inline code", "list items", "table cell", "computed tag name",
       "adjacent values", "quoted text", "@href", "@image", "join separator", "function arguments", "nested list in a table", "match and captures", "attribute with any name of 3 characters out of 4, written in four ways"]
check("C03",
      *[S(f"ctx{i}", 3, [i, 507 if i in (5, 15, 18) else 511], f"{c}; data of up to 3 symbolic ASCII characters, with fixed entity-like, tag-like and quote-like parts, or a non-ASCII character", 3 if i == 9 else 1) for i, c in enumerate(CTX)],
      S("ctx5-3", 3, [5, 4], "escape_html of any 3 ASCII characters", 1, **T),
      S("ctx15-3", 3, [15, 4], "function arguments of any 3 ASCII characters", 1, **T))

# ---- C04
check("C04",
      S("tag-1", 4, [0, 1], "all 73 tag names with one child out of 21 kinds of content", 3),
      S("tag-2", 4, [0, 2], "all 73 tag names with two children", 3),
      S("nested", 4, [2, 0], "13 tags of all kinds of content holding one of 14 tags, which has up to one child, with text, a space or a break before it", 3),
      S("siblings", 4, [3], "13 tags holding two of 14 tags, with text, a space, a break or nothing between", 3),
      S("group-3", 4, [4, 3], "groups of 3 items", 1),
      S("document-3", 4, [5, 3], "documents of 3 items", 1),
      S("children-3", 4, [1, 3, 9], "13 tags of all kinds of content with 3 children out of 9", 3),
      S("children-3-all", 4, [1, 3, 21], "13 tags of all kinds of content with 3 children out of 21", 3, **T),
      S("nested-1", 4, [2, 1], "as nested, with another item after it", 3, **T),
      S("document-4", 4, [5, 4], "documents of 4 items", 1, t=3000, **T),
      S("group-4", 4, [4, 4], "groups of 4 items", 1, t=3000, **T))

# ---- C05
TEXT = ["a document", "an inline tag", "a group", "a list item", "the content of a function", "a template", "a verbatim string"]
check("C05",
      S("ascii-3", 5, [0, 0, 3], "every document of 3 ASCII characters that is text", 3),
      *[S(f"ascii-2-{i}", 5, [0, i, 2], f"every 2 ASCII characters in {TEXT[i]}", 3) for i in range(1, 7)],
      S("ascii-3-template", 5, [0, 5, 3], "every 3 ASCII characters in a template", 3),
      S("symbols-4", 5, [1, 0, 4], "every document of 4 characters that are parts of symbols", 3),
      S("spaces-4", 5, [2, 0, 4], "every document of 4 parts: letters, quotes, spaces, line breaks, paragraph breaks, comments, escapes", 1),
      *[S(f"spaces-3-{i}", 5, [2, i, 3], f"every 3 such parts in {TEXT[i]}", 1) for i in range(1, 6)],
      S("escape", 5, [3, 0, 2], "hexadecimal escapes with the last digit any character and another one replaced", 3),
      S("escape-template", 5, [3, 5, 2], "the same in a template", 3),
      S("entity", 5, [4, 0, 2], "named entities with any two characters next to them", 3),
      S("entity-number", 5, [5, 0, 3], "numeric entities of three digits, alone or after four more", 3),
      S("entity-template", 5, [5, 5, 2], "the same in a template", 3),
      S("around", 5, [6, 0, 2], "any two characters around each of 15 parts of symbols, comments and entities", 3),
      S("around-template", 5, [6, 5, 2], "the same in a template", 3),
      S("wide", 5, [7, 0, 2], "every document of two characters of any kind", 3),
      S("wide-group", 5, [7, 2, 1], "any character in a group", 1),
      S("comments", 5, [8, 0, 4], "any four characters out of 7 in a comment, any out of four after it", 1),
      S("comments-template", 5, [8, 5, 3], "the same with three in a template", 1),
      S("comments-group", 5, [8, 2, 3], "and in a group", 1),
      S("braces", 5, [0, 7, 5], "templates of any five of: text, a variable, a space, an escape, a comment, an opening and a closing brace", 3),
      S("braces-6", 5, [0, 7, 6], "six of them", 3, t=900, **T),
      S("comments-6", 5, [8, 0, 6], "any six characters in a comment", 1, **T),
      S("around-3", 5, [6, 0, 3], "any character before and two after each of those parts", 3, **T),
      S("ascii-4", 5, [0, 0, 4], "every document of 4 ASCII characters that is text", 3, t=3000, **T),
      S("symbols-6", 5, [1, 0, 6], "every document of 6 characters that are parts of symbols", 3, t=3000, **T),
      S("spaces-5", 5, [2, 0, 5], "every document of 5 parts", 1, t=2000, **T),
      *[S(f"ascii-3-{i}", 5, [0, i, 3], f"every 3 ASCII characters in {TEXT[i]}", 3, **T) for i in range(1, 5)])

# ---- C06
WAYS = ["content parameter", "positional parameter", "named parameter", "*-parameter", "**-parameter", "default", "optional parameter", "implicit parameter", "attribute", "template", "spread attributes", "text, group, tag and list content"]
check("C06",
      *[S(f"way{i}", 6, [i, 1, i % 4], f"{w}: " + ("every type built with up to one constructor and " if i < 8 else "") + "every value built from 10 kinds of leaves with up to one list or dictionary around them", 3) for i, w in enumerate(WAYS)],
      S("content-2", 6, [0, 2, 0], "content parameter: types and values with two constructors", 3, **T),
      S("default-2", 6, [5, 2, 0], "default: types and values with two constructors", 3, **T),
      S("implicit-2", 6, [7, 2, 0], "implicit parameter: types and values with two constructors", 3, **T),
      S("text-2", 6, [11, 2, 0], "text, group, tag and list content: values with two constructors", 3, **T))

# ---- C07
check("C07",
      S("typeof-2", 7, [0, 2, 0], "the type of every value with up to two constructors", 1),
      S("typeof-list", 7, [5, 0, 0, 3], "the type of lists of three values of any kind", 1),
      S("typeof-pair", 7, [5, 1, 0, 2], "the type of lists of two values with up to one constructor", 1),
      S("belongs", 7, [1, 1, 0], "every type against every value, up to one constructor each", 1),
      S("belongs-bind", 7, [2, 1, 3], "the same, binding variables and the type", 1),
      S("equal", 7, [3, 1, 0], "equality of two values with up to one constructor", 1),
      S("equal-var", 7, [4, 1, 0], "equality of two named values, both ways and with themselves", 1),
      S("belongs-2", 7, [1, 2, 0], "every type against every value, up to two constructors each", 1, **T),
      S("belongs-bind-2", 7, [2, 2, 0], "the same, binding variables and the type", 1, **T),
      S("typeof-list-1", 7, [5, 1, 0, 3], "the type of lists of three values with up to one constructor", 1, t=3000, **T),
      S("equal-2", 7, [4, 2, 0], "equality of two named values with up to two constructors", 1, t=3000, **T))

# ---- C08
check("C08",
      S("params-1", 8, [0, 1, 0, 1, 1], "one parameter of any kind and type, content, one argument of any kind", 3),
      S("params-2-1", 8, [0, 2, 0, 1, 0], "two parameters of any kind, one argument", 3),
      S("params-2-2", 8, [0, 2, 2, 2, 0], "two parameters of any kind, two arguments, with newlines in between", 3),
      S("params-1-2", 8, [0, 1, 3, 2, 0], "one parameter, two arguments, with comments in between", 3),
      S("bind-1", 8, [1, 1, 0, 0], "a function of one parameter, bound in one step and called", 3),
      S("bind-2", 8, [1, 2, 0, 0], "a function of two parameters, bound in one step and called", 3, **T),
      S("bind-2-some", 8, [1, 2, 0, 0, 0, 1], "a function of two parameters, one kept positional or named, bound in one step and called", 3),
      S("bind-1-twice", 8, [1, 1, 0, 1], "a function of one parameter, bound in two steps and called", 3),
      S("bind-1-typed", 8, [1, 1, 0, 0, 0, 0, 1], "a function of one parameter of any kind and type, bound in one step and called", 3, t=1200, **T),
      S("bind-implicit", 8, [1, 1, 0, 0, 0, 0, 0, 1], "a function of an implicit parameter, bound in one step and called, with and without the implicit variable", 3),
      S("bind-content", 8, [1, 0, 0, 0], "a function of content of six kinds, bound in one step and called", 3),
      S("bind-content-twice", 8, [1, 0, 0, 1], "the same, bound in two steps", 3),
      S("params-1-typed-2", 8, [0, 1, 0, 2, 1], "one parameter of any kind and type, two arguments", 3, **T),
      S("params-2-typed", 8, [0, 2, 0, 1, 1], "two parameters of any kind and type, one argument", 3, t=2000, **T),
      S("params-3-2", 8, [0, 3, 0, 2, 0], "three parameters, two arguments", 3, t=2000, **T),
      S("params-2-3", 8, [0, 2, 0, 3, 0], "two parameters, three arguments", 3, t=2000, **T),
      S("bind-2-twice", 8, [1, 2, 0, 1], "a function of two parameters, bound in two steps and called", 3, t=2000, **T))

# ---- C09
check("C09",
      S("simple", 9, [0, 0], "every simple pattern against every value with up to one constructor", 1),
      S("repeated", 9, [0, 0, 0, 0, 1], "the same, with names bound twice", 1),
      S("and-or", 9, [0, 1], "conjunctions and alternatives of simple patterns", 1),
      S("list-2", 9, [0, 2, 0, 2], "list patterns of up to 2 elements, with spreads", 1),
      S("nodes-2", 9, [0, 3, 0, 2], "content patterns of up to 2 nodes, with spreads", 3),
      S("dict-1", 9, [0, 4, 0, 1], "dictionary patterns", 1),
      S("tag-attrs", 9, [0, 5], "tag patterns: attributes", 1),
      S("tag", 9, [0, 6, 0, 1], "tag patterns: name, content", 3),
      S("spread-3", 9, [1, 3, 0], "list patterns of up to 3 elements with a spread anywhere, lists of up to 4", 1),
      S("nested-list", 9, [3, 2, 0, 0], "list patterns whose rest is matched by another list pattern with a rest, lists of up to 5", 1),
      S("nested-nodes", 9, [3, 2, 0, 1], "the same for content of up to 5 elements", 1),
      S("nested-dict", 9, [3, 2, 0, 2], "the same for dictionaries of up to 4 entries", 1),
      S("template-4", 9, [2, 4, 0], "template patterns of up to 3 parts, strings of up to 4 characters", 1),
      S("in-list", 9, [0, 7, 0, 0, 0, 0], "any pattern with one construct, in a list pattern", 3),
      S("in-tag", 9, [0, 7, 0, 0, 0, 2], "any pattern with one construct, in a tag pattern", 3),
      S("nested-list-3", 9, [3, 3, 0, 0], "three list patterns within each other's rests", 1, t=900, **T),
      S("nested-nodes-3", 9, [3, 3, 0, 1], "three content patterns within each other's rests", 1, t=900, **T),
      S("list-3", 9, [0, 2, 0, 3], "list patterns of up to 3 elements", 1, t=2000, **T),
      S("nodes-3", 9, [0, 3, 0, 3], "content patterns of up to 3 nodes", 3, t=2000, **T),
      S("dict-2", 9, [0, 4, 0, 2], "dictionary patterns of 2 names", 1, t=2000, **T),
      S("tag-2", 9, [0, 6, 0, 2], "tag patterns with up to 2 nodes", 3, t=2000, **T),
      S("in-dict", 9, [0, 7, 0, 0, 0, 1], "any pattern with one construct, in a dictionary pattern", 3, **T),
      S("in-and", 9, [0, 7, 0, 1, 0, 3], "any pattern with one construct, in a conjunction", 3, t=2000, **T),
      S("spread-5", 9, [1, 5, 0], "list patterns of up to 5 elements", 1, t=2000, **T),
      S("template-6", 9, [2, 6, 0], "template patterns of up to 3 parts, strings of up to 6 characters", 1, t=2000, **T))

# ---- C10
check("C10",
      S("depth-1", 10, [0, 1, 0], "every program of one binding construct over two names and two functions", 3),
      S("doc-1", 10, [0, 1, 0, 0, 1], "the same after a function statement or a binding at the top of the document", 3),
      S("chain-3", 10, [1, 3, 0], "a function with an implicit parameter called below three bindings of 9 kinds", 3),
      S("chain-4", 10, [1, 4, 0], "the same, four bindings", 3, t=2000, **T),
      S("depth-2-implicit", 10, [0, 2, 0, 25], "programs of up to two of: let, implicit, functions with implicit parameters", 3),
      S("depth-2-closures", 10, [0, 2, 0, 70], "programs of up to two of: function bindings, lists", 3),
      S("depth-2-match", 10, [0, 2, 0, 544], "programs of up to two match expressions", 3),
      S("depth-2-stmt", 10, [0, 2, 0, 386], "programs of up to two of: function statements in groups, lets of several names, functions", 3),
      S("depth-2", 10, [0, 2, 0], "programs of up to two of all constructs", 3, **T),
      S("doc-2", 10, [0, 1, 0, 0, 2], "one construct after two statements", 3, **T),
      S("depth-3", 10, [0, 3, 0, 27], "programs of up to three of: let, function, implicit", 3, t=3000, **T))

# ---- C12
check("C12",
      S("pairs", 12, [0, 2, 4, 107], "two bases of up to 3 ASCII characters (one with a fixed prefix), max length 1..4", 3),
      S("triples", 12, [0, 3, 4, 72], "three bases with a fixed prefix and one symbolic character, max length 1..4", 3),
      S("quads", 12, [0, 4, 4, 41], "four bases of one symbolic character, alone or after a fixed prefix, max length 1..4", 3),
      S("wide", 12, [0, 1, 4, 148], "a base with a non-ASCII character, max length 1..4", 3),
      S("wide-2", 12, [0, 2, 3, 17], "two bases of one character, ASCII or not, max length 1..3", 3),
      S("repeat-12", 12, [1, 12], "12 requests for one base of 1..5 characters (the last symbolic) and one that looks suffixed, max length 1..8", 1),
      S("repeat-102", 12, [1, 102, 3], "102 requests for one base of 1 or 2 characters, max length 1..3", 1),
      S("lang-1", 12, [2, 1, 0, 3], "one call in a document, base of up to 2 characters, max length -6..6", 5),
      S("lang-1-wide", 12, [2, 1, 0, 16], "one call in a document, a non-ASCII base", 5),
      S("lang-2", 12, [2, 2, 0, 65], "two calls in a document, by function or method, and again after a reset", 5),
      S("repeat-105", 12, [1, 105], "105 requests for one base", 1, **T),
      S("pairs-all", 12, [0, 2, 3, 255], "two bases of any shape", 3, t=3000, **T),
      S("lang-3", 12, [2, 3, 0, 97], "three calls in a document", 5, **T))

# ---- C17
check("C17",
      S("literal", 17, [0, 3, 0], "literals of 3 symbolic digits with optional sign", 1),
      S("literal-18", 17, [0, 2, 1], "literals of 19 digits, the last 2 symbolic", 3),
      S("literal-19", 17, [0, 1, 2], "literals around 2^63, last digit symbolic", 3),
      S("literal-20", 17, [0, 1, 3], "literals of 20 digits", 2),
      S("literal-zeros", 17, [0, 2, 4], "literals with leading zeros", 1),
      S("parse-2", 17, [1, 2, 0], "parsing any 2 ASCII characters after an optional sign", 5),
      S("parse-19", 17, [1, 1, 2], "parsing a number around 2^63 whose last character is any ASCII character", 7),
      S("add-1", 17, [2, 1], "sum of one term", 1),
      S("add-2", 17, [2, 2], "sums of two terms, each a signed digit or around 2^63", 3),
      S("add-3", 17, [2, 3], "sums of three terms", 3),
      S("negate", 17, [3, 2, 0], "negation of 2 digits", 1),
      S("negate-19", 17, [3, 1, 2], "negation around 2^63", 3),
      S("str-from", 17, [4, 1, 2, 0], "decimal form around 2^63", 1),
      S("str-from-2", 17, [4, 2, 0, 0], "decimal form of 2 digits", 1),
      S("template", 17, [4, 1, 0, 1], "decimal form in a template", 1),
      S("text", 17, [4, 1, 2, 2], "decimal form in text", 1),
      S("compare", 17, [5, 1, 0], "equality, matching, truth and order of two digits", 1),
      S("compare-19", 17, [5, 1, 2], "equality, matching, truth and order around 2^63", 1),
      S("compare-2", 17, [5, 2, 0], "the same, 2 digits", 1, **T),
      S("parse-3", 17, [1, 3, 0], "parsing any 3 ASCII characters", 5, **T))

# ---- C15
check("C15",
      S("one", 15, [1, 0, 999, 1], "98 faulty programs with one of their first three spaces replaced by one of five gaps, after one of eight kinds of text, some with a symbolic character", 3),
      S("after-2", 15, [1, 0, 999, 2, 0, 1], "the same programs as they are after two such texts", 3),
      S("levels", 15, [1, 0, 999, 1, 1, 1], "the same programs after one such text at the four reporting levels", 3),
      S("two", 15, [2, 0, 999, 0, 1, 1], "every two of the 76 programs with one diagnostic that leave what follows alone, at the four reporting levels", 2),
      S("one-2", 15, [1, 0, 999, 2], "one of the first three spaces replaced, after two texts", 3, **T),
      S("after-3", 15, [1, 0, 999, 3, 0, 1], "the programs as they are after three texts", 3, **T),
      S("two-1", 15, [2, 0, 999, 1, 1, 1], "two programs, each after a text", 2, t=3000, **T),
      S("three", 15, [3, 0, 999, 0, 0, 1], "three programs", 2, t=3000, **T))

# ---- C11
check("C11",
      S("callback-1", 11, [0, 1, 3], "all, any, filter, find and map on lists of one element of nine kinds with callbacks of seven kinds", 3),
      S("callback-2", 11, [0, 2, 2], "the same on lists of two elements", 3),
      S("callback-0", 11, [0, 0, 0], "the same on the empty list", 3),
      *[S(f"slice-{n}", 11, [1, n, 0], f"slices of a list of {n} elements with one or two bounds from 11", 1) for n in (0, 2, 3)],
      S("sort-int", 11, [2, 3, 0], "sorting three symbolic digits, both ways", 1),
      S("sort-str", 11, [2, 4, 1], "sorting four symbolic letters, both ways", 1),
      S("sort-mixed", 11, [2, 3, 2], "sorting three elements of three kinds", 3),
      S("sort-key-int", 11, [3, 3, 4], "sorting three lists by symbolic numbers of either sign", 1),
      S("sort-key-str", 11, [3, 3, 5], "sorting three lists by symbolic strings of one or two letters", 1),
      S("sort-key-mixed", 11, [3, 3, 6], "sorting three lists by keys of four kinds", 3),
      S("sort-long", 11, [7, 22, 0], "sorting 22 lists by number, two of the numbers symbolic", 1),
      S("sort-longer", 11, [7, 40, 0], "sorting 40 lists by number, many of the numbers equal, two symbolic", 1),
      S("index", 11, [8, 3, 2], "elements, by index from 11, of a list of three", 3),
      S("part-index", 11, [8, 2, 2, 1], "the same, the list a part of a longer one", 3),
      S("rest-0", 11, [4, 0, 2], "contains, enumerate, flat, get, is_empty, len, reversed, and arguments of other kinds, on the empty list", 3),
      S("rest-2", 11, [4, 2, 3], "the same on two elements of nine kinds", 3),
      S("join-2", 11, [5, 2, 3], "join of two elements of nine kinds with separators of five kinds", 1),
      S("join-3", 11, [5, 3, 2], "join of three elements of three kinds", 1),
      S("nodes-3", 11, [6, 3, 0], "the nodes of content of three parts of six kinds", 1),
      S("part-slice", 11, [1, 2, 0, 1], "slices of two elements which are themselves a slice, a slice of a slice or the rest matched by a pattern", 1),
      S("part-rest", 11, [4, 2, 2, 1], "contains, enumerate, flat, get, is_empty, len and reversed on such a part", 3),
      S("part-sort", 11, [2, 2, 0, 1], "sorting such a part", 1),
      S("part-callback", 11, [0, 1, 0, 1], "callbacks on the elements of such a part", 3),
      S("part-join", 11, [5, 2, 2, 1], "joining the elements of such a part", 1),
      S("callback-2-any", 11, [0, 2, 3], "callbacks on two elements of nine kinds", 3, t=1500, **T),
      S("callback-3", 11, [0, 3, 2], "callbacks on lists of three elements", 3, t=1500, **T),
      S("slice-4", 11, [1, 4, 0], "slices of a list of four elements", 1, **T),
      S("sort-4", 11, [3, 4, 4], "sorting four lists by number", 1, t=600, **T),
      S("rest-3", 11, [4, 3, 2], "contains, enumerate and so on of three elements", 3, **T),
      S("nodes-4", 11, [6, 4, 0], "the nodes of content of four parts", 1, **T))

# ---- C18
check("C18",
      S("chars-1", 18, [0, 1], "lower, upper, trim, len, is_empty, is_whitespace and escape_html of any ASCII character or one of 18 others", 1),
      S("chars-2", 18, [0, 2], "the same of any two", 1),
      S("chars-0", 18, [0, 0], "the same of the empty string", 1),
      S("ends", 18, [1, 3], "prefixes and suffixes of up to 4 letters of strings of 3 letters", 1),
      S("split", 18, [2, 3], "splitting 3 letters by up to 3 letters", 1),
      S("split-wide", 18, [3, 3], "splitting 3 characters of one or two bytes", 1),
      S("split-empty", 18, [2, 0], "splitting the empty string", 1),
      S("coerce", 18, [4, 0], "strings and truth values from values of nine kinds", 3),
      S("bool", 18, [5, 0], "truth values of numbers, functions and empty strings and dictionaries", 1),
      S("logic", 18, [6, 0], "and, or and negate of values of four kinds", 3),
      S("html", 18, [7, 2], "escape_html, is_empty and is_whitespace of content of two parts of five kinds", 1),
      S("chars-3", 18, [0, 3], "the functions of single strings on any three characters", 1, t=1200, **T),
      S("ends-4", 18, [1, 4], "prefixes and suffixes of strings of 4 letters", 1, **T),
      S("split-5", 18, [2, 5], "splitting 5 letters", 1, **T),
      S("split-wide-4", 18, [3, 4], "splitting 4 characters of one or two bytes", 1, **T),
      S("html-3", 18, [7, 3], "content of three parts", 1, **T))

# ---- C19
check("C19",
      S("whole-0", 19, [0, 0], "len, is_empty, keys, values, items and new of the empty dictionary", 1),
      S("whole-2", 19, [0, 2], "the same with two entries", 1),
      S("get-2", 19, [1, 2], "get of any key of up to two ASCII characters, with two entries", 3),
      S("attr-2", 19, [2, 2], "entries by name, plain and coalescing, with two entries", 3),
      S("merge-1", 19, [3, 1], "one entry together with one or two others, before or after them", 3),
      S("merge-0", 19, [3, 0], "no entries together with others", 1),
      S("access-1", 19, [4, 1, 1], "one part, by name or index, of any value", 3),
      S("access-2", 19, [4, 2, 1], "a part of a part of any value", 3),
      S("whole-3", 19, [0, 3], "whole dictionaries of three entries", 1, **T),
      S("get-3", 19, [1, 3], "get with three entries", 3, t=900, **T),
      S("attr-3", 19, [2, 3], "entries by name with three entries", 3, **T),
      S("merge-2", 19, [3, 2], "two entries together with others", 3, t=1200, **T))

# ---- C13
check("C13",
      S("characters", 13, [0, 12, 6, 1], "12 output directories and every path of 6 characters out of a, b, dot and separator", 3),
      S("components", 13, [0, 12, 102, 1], "12 output directories and every path of two components out of six kinds, with any leading and trailing separators", 3),
      S("several", 13, [0, 12, 2, 3], "12 output directories and three paths of 2 characters", 3),
      S("calls", 13, [1, 12, 4, 1], "a call of @file::write with any path of 4 characters and one of four contents", 3),
      S("calls-2", 13, [1, 12, 1, 2], "two calls of @file::write", 3),
      S("characters-9", 13, [0, 12, 9, 1], "12 output directories and every path of 9 characters", 3, t=600, **T),
      S("components-3", 13, [0, 12, 103, 1], "12 output directories and every path of three components", 3, t=600, **T),
      S("components-4", 13, [0, 4, 104, 1], "4 output directories and every path of four components", 3, t=1500, **T),
      S("calls-components", 13, [1, 12, 102, 1], "a call with any path of two components", 3, t=600, **T),
      S("calls-components-2", 13, [1, 5, 101, 2], "two calls with any path of one component", 3, t=600, **T))

# ---- C14: which statements each file may have: 1 include, 2 import, 4 export, 8 variable, 16 text, 32 unique ID, 64 function, 128 call, 256 write, 512 call through an import
def M(*a): return sum(x << (10 * i) for i, x in enumerate(a))
check("C14",
      S("paths", 14, [1, 1, 1, M(3, 19, 19), 12], "three files, each including or importing another by any of 12 spellings of its path", 3),
      S("paths-2", 14, [2, 1, 1, M(9, 5, 21), 12], "two inclusions by any of 12 spellings, or variables", 3),
      S("all", 14, [2, 1, 1, M(1023, 1023, 1023), 2], "three files of two, one and one statements of ten kinds", 3),
      S("names", 14, [2, 2, 1, M(653, 77, 84), 1], "names exported by one module and used by another", 3),
      S("names-3", 14, [3, 2, 1, M(137, 69, 4), 2], "three statements: inclusions, variables, calls", 3),
      S("again", 14, [1, 2, 1, M(3, 31, 31), 2, 1], "the same job twice", 3),
      S("again-other", 14, [1, 1, 1, M(1023, 1023, 1023), 2, 2], "another file of the same project compiled next", 3),
      S("again-changed", 14, [1, 1, 1, M(1023, 1023, 1023), 2, 3], "a module changed between two jobs", 3),
      S("files", 14, [1, 1, 1, M(127, 127, 127), 2, 0, 1], "reading, listing and including files by 9 or 10 spellings of paths, also in functions called from another file", 3),
      S("files-function", 14, [2, 2, 2, M(5, 7, 7), 2, 0, 1], "functions that read a file beside them, called from other files", 3),
      S("files-2", 14, [2, 1, 1, M(127, 126, 126), 2, 0, 1], "two statements about files in the main file", 3, t=1500, **T),
      S("all-221", 14, [2, 2, 1, M(1023, 1023, 1023), 1], "two, two and one statements of ten kinds", 3, t=2400, **T),
      S("all-311", 14, [3, 1, 1, M(1023, 1023, 1023), 2], "three, one and one statements of ten kinds", 3, t=1200, **T),
      S("again-all", 14, [2, 1, 1, M(1023, 1023, 1023), 2, 1], "the same job twice, two statements in the main file", 3, t=600, **T),
      S("again-changed-2", 14, [2, 1, 1, M(1023, 1023, 1023), 2, 3], "a module changed between two jobs, two statements in the main file", 3, t=600, **T))

# ---- C16
check("C16",
      S("plain", 16, [0, 6, 0], "a code fence with any six characters of code: spaces, tabs, line ends of both kinds, a letter, a bracket and a character HTML reserves", 3),
      S("inline", 16, [0, 6, 1], "inline code of any six of these on one line", 1),
      S("call", 16, [0, 5, 2], "a code block of any five of these", 3),
      S("call-inline", 16, [0, 5, 3], "`@code` with any five of these", 3),
      S("block", 16, [0, 5, 4], "`@code_block` with any five of these", 3),
      S("language", 16, [1], "five ways to show code, in no or one of four languages given or implied, first lines that may be a language, code of five shapes, eight first line numbers", 7),
      S("papyri-2", 16, [2, 2, (1 << 28) - 1, 0], "Papyri source of any two of 28 pieces, separated in four ways", 1),
      S("papyri-crlf", 16, [2, 2, (1 << 28) - 1, 1], "the same with both characters at line ends", 1),
      S("papyri-brackets", 16, [2, 4, 0x0f, 0], "Papyri source of any four brackets of two kinds, over one to four lines", 1),
      S("papyri-3", 16, [2, 3, 0b110101011101101001010101011, 0], "Papyri source of any three of 15 pieces", 1),
      S("any-line", 16, [3, 2, 511], "two characters of code, cut and classified in any of 21 ways at each by the highlighter", 1),
      S("any-brackets", 16, [3, 3, 6], "three letters and brackets, cut and classified in any way at each", 1),
      S("any-lines", 16, [3, 3, 3], "letters on two lines, cut and classified in any way at each", 1),
      S("any-address", 16, [3, 1, 768], "an address or a character before others, cut and classified in any way", 1),
      S("papyri-3-all", 16, [2, 3, (1 << 28) - 1, 0], "Papyri source of any three of 28 pieces", 1, t=900, **T),
      S("papyri-brackets-5", 16, [2, 5, 0x3f, 0], "five brackets", 1, t=1800, **T),
      S("any-3", 16, [3, 3, 62], "three letters and brackets of both kinds, cut and classified in any way at each", 1, t=1800, **T),
      S("plain-8", 16, [0, 8, 0], "eight characters of code", 3, t=900, **T))

# ---- C22
check("C22",
      S("stdin", 22, [1, 511], "the standard input with any of nine kinds of source, options and arguments that are refused", 3),
      S("which", 22, [0, 0xfffff, 15, 63, 1, 1, 1, 0, 0], "20 ways to name sources, all options, no or one of five output directories", 29),
      S("kinds", 22, [0, 1, 0, 3, 511, 511, 511, 0, 0], "three sources of nine kinds each, with and without an output directory", 15),
      S("times", 22, [0, 0x1f, 9, 3, 5, 5, 1, 3, 0], "sources older than, as old as, newer than or without their outputs, skipping unchanged ones or not", 23),
      S("again", 22, [0, 3, 1, 3, 13, 1, 1, 1, 1], "a second run after a source was changed", 23),
      S("forms", 22, [0, 0x1f, 29, 3, 1, 1, 1, 0, 0], "options spelled long and short, before and after the sources", 5),
      S("faults", 22, [0, 0x1f, 8, 3, 0x1f, 1, 1, 0, 0, 1], "a directory where an output file, or a file where the output directory should be", 31),
      S("which-2", 22, [0, 0xfffff, 11, 15, 21, 1, 1, 0, 0], "the ways to name sources, options, and sources of three kinds", 31, t=900, **T),
      S("times-3", 22, [0, 0x1f, 9, 3, 5, 5, 1, 7, 0], "times of three sources", 23, t=900, **T),
      S("again-all", 22, [0, 31, 9, 3, 0x1ff, 0x1ff, 1, 0, 1], "a second run after a source was changed, all kinds of sources", 31, t=1800, **T),
      S("again-times", 22, [0, 3, 1, 3, 13, 5, 1, 3, 1], "a second run, outputs of an earlier time", 23, t=900, **T))

# ---- C24
check("C24",
      S("plain", 24, [0], "29 functions of one argument with content of any kind: 17 kinds of value or any of seven elements with or without attributes", 3),
      S("nested", 24, [1], "one of these functions in another", 3),
      S("attributes", 24, [2], "@class, @style, @attributes, @href, @image and @blockquote with values of six kinds, on content of any kind", 3),
      S("attributes-2", 24, [3, 3], "two of these in one another", 3),
      S("content", 24, [4], "what they return, among other content in a group, <div>, <p> or <section>", 3),
      S("call", 24, [5], "@function::call with functions of up to two parameters, a rest and a named one, any three arguments and content", 3),
      S("page-root", 24, [6, 1], "pages with titles and web roots of five shapes", 3),
      S("page-parts", 24, [6, 14], "pages with or without a head, a header and a footer of four kinds of content", 3),
      S("page-content", 24, [6, 16], "pages with content of any kind", 3),
      S("page-all", 24, [6, 31], "all of these together", 3, t=1500, **T),
      S("attributes-2-all", 24, [3, 0], "two of the functions of attributes in one another, with values and elements of all kinds", 3, t=1500, **T))

# ---- C23
check("C23",
      S("sources", 23, [1, 1, 9, 0], "25 regular expressions, accepted or not: matched against types, passed where one is or is not expected, compared, shown", 3),
      S("plain", 23, [1, 3, 0, 0], "any piece of four kinds, repeated in any of five ways, or an alternative of two, on any three characters", 1),
      S("groups", 23, [2, 3, 2, 0], "two pieces, or an alternative, with unnamed, named or mixed groups that may take part, repeat or nest, on any three characters", 3),
      S("groups-wide", 23, [1, 2, 2, 1], "the same on characters of one or two bytes, called as methods too", 3),
      S("groups-3", 23, [3, 3, 2, 0], "three pieces", 3, t=1200, **T),
      S("nested", 23, [1, 2, 1, 0], "groups of alternatives of any piece, repeated in any way", 1, t=1800, **T),
      S("groups-4", 23, [2, 4, 2, 1], "two pieces on four characters of one or two bytes", 3, t=1800, **T))

# ---- C20
check("C20",
      S("asked-any", 20, [0, 9, 0, 0], "questions about a value of any of 17 kinds", 3),
      S("asked-characters", 20, [0, 8, 2, 0], "questions about any two ASCII characters, in elements and attributes", 1),
      S("asked-tags", 20, [0, 0, 1, 0], "questions about any element with content of any kind", 3),
      S("asked-groups", 20, [0, 4, 2, 0], "questions about groups of any two pieces", 1),
      S("parsed", 20, [1, 1, 0, 0, 0], "documents of any block with inline content: elements, attributes quoted in four ways, characters written in four ways, comments, omitted end tags", 1),
      S("mistakes", 20, [1, 0, 0, 1, 0], "12 mistakes in documents, also after an attribute given twice", 2),
      S("around", 20, [1, 0, 0, 2, 0], "what comes before and around the body: comments, heads, attributes of the root", 3),
      S("fetched", 20, [2, 0, 0, 2, 0], "the same as the answer to a request", 3),
      S("asked-characters-4", 20, [0, 8, 4, 0], "four ASCII characters", 1, t=600, **T),
      S("parsed-8", 20, [1, 1, 0, 0, 1], "characters written in eight ways", 1, t=900, **T),
      S("parsed-nested", 20, [1, 1, 1, 0, 0], "blocks in blocks", 1, t=1800, **T),
      S("parsed-2", 20, [1, 2, 0, 0, 0], "two blocks", 1, t=2400, **T))

# ---- C21
check("C21",
      S("characters", 21, [6, 3, 0], "any three ASCII characters in six places", 1),
      S("characters-wide", 21, [6, 1, 1], "ASCII and other characters in six places", 1),
      S("tags", 21, [0, 1, 0], "every element with content of any of 21 kinds", 3),
      S("tags-2", 21, [1, 2, 21], "13 elements with two pieces of any kind", 3),
      S("siblings", 21, [3, 0, 0], "13 elements with two elements of 14 kinds", 3),
      S("nested", 21, [2, 0, 0], "13 elements, in them 14, in them any piece", 3),
      S("values", 21, [7], "values of any of 17 kinds in a document, a paragraph, a table cell and lists", 3),
      S("code", 21, [8], "code on any of three lines, in blocks, numbered or highlighted, and in paragraphs", 1),
      S("groups", 21, [4, 2, 0], "groups of any two pieces", 1),
      S("documents", 21, [5, 3, 0], "documents of any three pieces", 1),
      S("tags-3", 21, [1, 3, 16], "13 elements with three pieces of 16 kinds", 3, t=900, **T),
      S("groups-3", 21, [4, 3, 0], "groups of any three pieces", 3, t=600, **T),
      S("documents-4", 21, [5, 4, 0], "documents of any four pieces", 1, t=1800, **T),
      S("characters-4", 21, [6, 4, 1], "four ASCII characters and another", 1, t=600, **T))

# ---- C25
check("C25",
      S("one", 25, [0, 1, 1], "one request of four addresses in four places, allowed or not, that fails, breaks off or is answered with any character", 3),
      S("two", 25, [0, 1, 2], "two requests", 3),
      S("answer-2", 25, [0, 2, 1], "answers of any two characters", 3),
      S("tool", 25, [1], "the command-line tool with and without --allow-http, four other options, four documents that fetch something or not", 3),
      S("three", 25, [0, 0, 3], "three requests, empty answers", 3, t=1200, **T),
      S("answer-3", 25, [0, 3, 1], "answers of any three characters", 3, t=600, **T))

# ---- C26
check("C26",
      S("one", 26, [1, 0, 65535, 0], "one statement of 16 kinds", 3),
      S("one-nested", 26, [1, 0, 65535, 1], "one statement with another inside", 3),
      S("two", 26, [2, 0, 65535, 0], "two statements", 3),
      S("two-exports", 26, [2, 0, 273, 1], "two of an export of a name, an exported binding and a binding, with one of these inside", 3),
      S("three", 26, [3, 0, 8213, 0], "three exports of names, functions and bindings", 3),
      S("import", 26, [2, 1, 65535, 0], "two statements, imported", 1),
      S("import-3", 26, [3, 1, 8213, 0], "three exports of names, functions and bindings, imported", 1),
      S("import-use", 26, [2, 2, 9405, 0], "two statements, imported and used", 3),
      S("include", 26, [2, 3, 65535, 0], "two statements, included and used", 3),
      S("include-bound", 26, [1, 4, 65535, 0], "a statement, included where a name is bound", 3),
      S("include-group", 26, [2, 5, 58437, 0], "two statements, included in a group", 3),
      S("include-let", 26, [1, 6, 65535, 0], "a statement, included in a binding", 3),
      S("include-implicit", 26, [2, 7, 65535, 0], "two statements, included before a call of a function with an implicit parameter", 3),
      S("include-export", 26, [2, 8, 65535, 0], "two statements, included in an export", 3),
      S("include-twice", 26, [2, 9, 65535, 0], "two statements, included twice", 3),
      S("two-functions", 26, [2, 0, 276, 1], "two of an exported function, an exported binding and a binding, with one of these inside", 3, t=600, **T),
      S("two-nested", 26, [2, 0, 65535, 1], "two statements with another inside", 3, t=900, **T),
      S("three-any", 26, [3, 0, 65535, 0], "three statements", 3, t=900, **T),
      S("nested-2", 26, [1, 0, 65535, 2], "a statement in a statement in a statement", 3, t=900, **T),
      S("include-bound-2", 26, [2, 4, 65535, 0], "two statements, included where a name is bound", 3, t=600, **T),
      S("include-let-2", 26, [2, 6, 65535, 0], "two statements, included in a binding", 3, t=600, **T),
      S("include-nested", 26, [1, 3, 65535, 1], "a statement with another inside, included", 3, t=600, **T))

# ---- C27
check("C27",
      S("any-3", 27, [3, 8, 0], "three tokens of 55", 3),
      S("brackets", 27, [4, 0, 0], "four of brackets, elements and text", 3),
      S("call", 27, [4, 1, 0], "four of a call and the tokens of arguments", 3),
      S("elements", 27, [5, 2, 1], "five start and end tags and text", 3),
      S("attributes", 27, [5, 3, 1], "four tokens of attributes after the start of an element", 3),
      S("binding", 27, [9, 4, 6], "three tokens after a binding", 3),
      S("ellipsis", 27, [5, 5, 1], "four of ellipses, brackets, breaks and comments after a call", 3),
      S("match", 27, [8, 6, 4], "four tokens of the branches of a match", 3),
      S("definition", 27, [7, 7, 3], "four tokens of a definition", 3),
      S("match-list", 27, [9, 9, 5], "four tokens of the patterns of a match of a list", 3),
      S("match-type", 27, [10, 10, 6], "four tokens of a pattern with a type", 3),
      S("definition-type", 27, [8, 11, 4], "four tokens of the parameters of a definition", 3),
      S("name-tag", 27, [11, 12, 8], "three tokens after the start of an element with a variable name", 3),
      S("ellipsis-list", 27, [7, 14, 3], "four tokens after an ellipsis in a list", 2),
      S("content-type", 27, [9, 15, 5], "four tokens after the content parameter of a definition", 3),
      S("export", 27, [9, 13, 6], "three tokens after the names of an export", 3),
      S("export-1", 27, [5, 13, 1], "four tokens of an export", 2),
      *[S("edit-%d" % i, 27, [0, 8, i, 1], "a token put in, left out or replaced in a document of up to 30", 3) for i in range(29)],
      S("any-4", 27, [4, 8, 0], "four tokens of 55", 3, t=1800, **T),
      S("brackets-6", 27, [6, 0, 0], "six of brackets, elements and text", 3, t=900, **T),
      S("call-5", 27, [5, 1, 0], "five of a call and the tokens of arguments", 3, t=600, **T),
      S("elements-6", 27, [6, 2, 0], "six start and end tags and text", 3, t=900, **T),
      S("attributes-6", 27, [6, 3, 1], "five tokens of attributes", 3, t=600, **T),
      S("name-tag-4", 27, [12, 12, 8], "four tokens after the start of an element with a variable name", 3, t=600, **T),
      S("match-5", 27, [9, 6, 4], "five tokens of the branches of a match", 3, t=600, **T),
      S("definition-5", 27, [8, 7, 3], "five tokens of a definition", 3, t=900, **T),
      S("match-list-5", 27, [10, 9, 5], "five tokens of the patterns of a match of a list", 3, t=900, **T),
      S("match-type-5", 27, [11, 10, 6], "five tokens of a pattern with a type", 3, t=900, **T),
      S("definition-type-5", 27, [9, 11, 4], "five tokens of the parameters of a definition", 3, t=900, **T),
      *[S("edits-%d" % i, 27, [0, 8, i, 2], "two tokens put in, left out or replaced", 3, t=1200, **T) for i in (5, 9)])
