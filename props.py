"""The properties (source of properties.jsonl and MANIFEST.json; run `python3 props.py`)."""
import json, os

ROOT = os.path.dirname(os.path.abspath(__file__))
P = []
TESTS = "The repository's tests are about 230 fixed documents compared with fixed outputs; "


def prop(pid, title, statement, over, qtext, why, files, mechanism, observe, note, state=None):
    P.append((dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=TESTS + why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None, **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))), note))


prop("C01", "Compiling any text terminates with output or diagnostics, never a crash",
     "For every source text, compiling and rendering it finishes without panicking and without hanging. The result is an output together with zero or more reported diagnostics; malformed input is reported, never a crash.",
     ["inputs"], "every source text of up to 3-4 characters, and every filling of the character holes of a set of program templates covering each construct of the language",
     "no finite list of documents covers the malformed ones, which is where lexer index arithmetic and parser recovery go wrong.",
     ["src/parser/tokenizer.rs", "src/parser/base.rs", "src/parser/text.rs", "src/parser/func.rs", "src/parser/matcher.rs", "src/parser/tag.rs", "src/compiler/value.rs"],
     [("tokeniser", "src/parser/tokenizer.rs"), ("recursive-descent parser with error recovery", "src/parser/base.rs"), ("renderer", "src/compiler/render.rs")],
     ["Context::compile_synthetic", "Context::render", "errors::Diagnostics"],
     "all source texts up to the stated length over the stated alphabet; template holes for longer programs")

prop("C03", "Text and attribute values reach the HTML output escaped and unchanged",
     "Whatever characters a string value, verbatim text or attribute value contains, the HTML output decodes to exactly those characters at that place, and no character of it is read as markup or as an entity. Computed tag names are identifiers (or the doctype) or are refused, and underscores in the name of an attribute are output as hyphens.",
     ["inputs", "programs"], "every string of up to 3 symbolic characters, also embedded in entity-like, tag-like and quote-like text, in each of 19 contexts a value can be output in",
     "escaping must hold for every string in every output position; the tests escape one or two strings.",
     ["src/compiler/render.rs", "src/utils/text.rs", "src/compiler/tag.rs", "src/compiler/value_convert.rs", "src/compiler/native.rs"],
     [("entity encoding", "src/utils/text.rs encode_entities"), ("renderer", "src/compiler/render.rs"), ("computed tag names", "src/compiler/tag.rs compile_tag_name")],
     ["the rendered HTML, read back by an independent strict reader"],
     "19 output contexts, one with any attribute name of 3 characters; strings of up to 3 symbolic ASCII characters or a non-ASCII one, within fixed entity-, tag- and quote-like text")

prop("C12", "Unique IDs are distinct, valid, lowercase and bounded in length",
     "Within one compile job, every unique ID issued is different from all earlier ones and is a non-empty lowercase identifier, whatever texts and length limits were asked for. An ID is at most as long as the limit unless the limit leaves no room for the distinguishing suffix; the first ID for a text that is already an identifier is that identifier in lowercase, cut to the limit; after a reset the IDs may be issued again.",
     ["inputs", "histories"], "every history of up to 4 requests with bases of up to 3 characters, and of 12 (105 in the thorough tier) requests for one base, with limits 1 to 8",
     "collisions need particular combinations of earlier bases, suffixes and limits; the tests ask for four IDs.",
     ["src/utils/text.rs", "src/compiler/native.rs"],
     [("ID generator with a set of used IDs", "src/utils/text.rs UniqueIDGenerator::get_unique_id"), ("transliteration to an identifier", "src/utils/text.rs make_identifier"), ("native function", "src/compiler/native.rs UNIQUE_ID")],
     ["the issued IDs"],
     "histories of up to 4 requests over symbolic bases, 12 over one base",
     state=[("used IDs", "the IDs issued since the last reset", "src/utils/text.rs UniqueIDGenerator.ids_used")])

prop("C17", "Integers are exact 64-bit signed values, or an error is reported",
     "An integer literal, a parsed integer, a sum and a negation denote the exact mathematical value whenever it (and, for sums, every partial sum) fits in 64 bits signed; otherwise an error is reported, never a wrapped or rounded value or a crash. Integers compare, order, match and test for truth by value, and are displayed in decimal without loss.",
     ["inputs", "programs"], "signed literals of up to 3 symbolic digits and all literals within 100 of the 64-bit limits; sums of up to three such terms; parsing any 2 ASCII characters after a sign",
     "boundary values are single points among 2^64.",
     ["src/compiler/native.rs", "src/parser/base.rs", "src/compiler/value_convert.rs"],
     [("checked arithmetic", "src/compiler/native.rs INT"), ("literal parsing", "src/parser/base.rs"), ("formatting", "src/compiler/value_convert.rs")],
     ["exported values", "the rendered HTML"],
     "literals of up to 20 digits with up to 3 symbolic ones, at both ends of the range")

prop("C15", "Diagnostics name the right place and calls, and are counted correctly",
     "Every diagnostic gives the line and column, in characters, of the construct at fault, whatever text surrounds it, and for errors during execution the calls that led there, innermost last, with the function each position is in. The counts and the summary include every error and warning once; the reporting level decides only which are listed, and clearing resets everything.",
     ["inputs", "programs"], "98 faulty programs after every two pieces of text of eight kinds with symbolic characters, with gaps of five kinds in them; every two of them in one document at each reporting level",
     "positions are tested only as a line of text in a few errors; line and column depend on every character before.",
     ["src/utils/sourcefile.rs", "src/errors/sink.rs", "src/errors/sink_base.rs", "src/compiler/frame.rs", "src/parser/base.rs", "src/parser/tokenizer.rs"],
     [("line and column", "src/utils/sourcefile.rs index_to_line_col"), ("diagnostic sink", "src/errors/sink_base.rs"), ("stack traces", "src/compiler/frame.rs stack_trace")],
     ["the formatted diagnostics", "counts and summary"],
     "one to two faulty programs of a fixed set; up to two pieces of text before")

prop("C11", "The list functions select, order and combine elements as specified",
     "Filtering, mapping, testing, finding, slicing, indexing, enumerating, flattening, reversing and joining lists return exactly the elements the definition gives, in order, whatever the elements, indices and callbacks. Sorting returns a permutation of the list in order of its keys, elements with equal keys in their original order, ascending or descending. A callback that fails or gives a value of the wrong type, an index out of range or keys that cannot be ordered are errors.",
     ["inputs", "programs"], "lists of up to 3 elements of nine kinds with symbolic digits and letters, callbacks of seven kinds, indices and bounds around 0, the length and the 64-bit limits; sorting lists of up to 4, 22 and 40 elements; parts of longer lists",
     "boundary indices, equal keys and lists that are parts of others need many combinations; the tests try one or two each.",
     ["src/compiler/native.rs", "src/utils/sliceref.rs", "src/compiler/names.rs", "src/compiler/html.rs"],
     [("list functions", "src/compiler/native.rs LIST"), ("sorting", "src/compiler/native.rs native_sorted_impl"), ("indexing", "src/compiler/names.rs list_get")],
     ["exported values"], "lists of up to 3 elements (sorting: up to 40), callbacks of seven kinds, eleven indices")

prop("C18", "The string and truth functions agree with their definitions on Unicode text",
     "Changing case, trimming, splitting, prefix and suffix tests, lengths, whitespace tests, HTML escaping and conversion to strings return what Unicode and the language define, for ASCII and other characters, empty strings and separators. The truth value of a value and the logical functions follow the documented rules, and arguments of another kind are errors.",
     ["inputs", "programs"], "strings of up to 2 characters (3 in the thorough tier), each any ASCII character or one of 18 others with unusual case or class; splitting of up to 3 characters by up to 3; values of nine kinds",
     "unusual characters, overlapping separators and empty strings are rarely in tests.",
     ["src/compiler/native.rs", "src/utils/text.rs", "src/compiler/value_convert.rs"],
     [("string functions", "src/compiler/native.rs STR"), ("truth", "src/compiler/native.rs BOOL"), ("content functions", "src/compiler/native.rs HTML")],
     ["exported values"], "strings of up to 2-3 characters; 18 non-ASCII characters")

prop("C19", "Dictionaries keep exactly the given entries, in order, found by their keys",
     "A dictionary holds each given entry once, in the order first given; lengths, keys, values and items list exactly those. An entry is found by its exact key and by no other, by function or as an attribute; a missing entry, or one given twice, is an error. A part of any value is found by its name or index in the same way, and with `?` a part of nothing is nothing.",
     ["inputs", "programs"], "dictionaries of up to 2 entries (3 in the thorough tier), every key of up to 2 ASCII characters, spreading of one dictionary into another in every position; up to two names or indices, with or without `?`, on values of every kind",
     "keys that clash with built-in names, duplicates through spreading and order are not sampled.",
     ["src/compiler/native.rs", "src/compiler/names.rs", "src/utils/string_pool.rs", "src/compiler/signature.rs"],
     [("dictionary functions", "src/compiler/native.rs DICT"), ("attributes", "src/compiler/names.rs evaluate_attr"), ("interned names", "src/utils/string_pool.rs")],
     ["exported values"], "up to 3 entries, keys of up to 2 symbolic characters")

NOT_APPLICABLE = []
#MORE

prop("C04", "Rendered HTML keeps to the content model: no bad nesting, lost or merged text",
     "Whatever content an element, group or document is given, the output is well-formed HTML in which every element has only children its content model allows: block content is never placed inside paragraphs or inline-only elements, loose inline content is wrapped in paragraphs, list items or table cells where the element requires it, and void elements have no content. Content that cannot be placed is reported as an error; otherwise all of it appears exactly once and in order.",
     ["programs", "inputs"], "every tag name with up to 2 children of 19 kinds; 13 representative tags with 3 children; nesting of two tags; documents and groups of 3 items",
     "the content models multiply: each of 73 tags behaves differently with each mixture of text, breaks, inline and block children.",
     ["src/compiler/sequence.rs", "src/utils/taginfo.rs", "src/compiler/html.rs", "src/compiler/value.rs", "src/compiler/tag.rs", "src/utils/sliceref.rs"],
     [("content kinds", "src/utils/taginfo.rs ContentKind"), ("sequence builder", "src/compiler/sequence.rs SequenceBuilder"), ("element compilation", "src/compiler/tag.rs")],
     ["the rendered HTML, compared with that of an independent content model"],
     "documents of up to 3 items; tags with up to 2-3 children; nesting depth 2")

prop("C05", "Text means exactly what its characters say: symbols, quotes, escapes, spaces",
     "Text is output with the documented replacements and no others: the longest ASCII symbols become dashes, arrows and signs, quotes curl by what precedes them, escapes and entities denote their character or are errors, runs of whitespace become one space or a paragraph break, and comments have no effect. Templates and verbatim strings denote their characters, without those typographic replacements.",
     ["inputs"], "every text of up to 3 ASCII characters in a document and in templates, up to 4 among the characters and parts that interact, and numeric entities and escapes with any digits, in seven places",
     "replacements interact with their neighbours; the tests contain each once.",
     ["src/parser/text.rs", "src/parser/tokenizer.rs", "src/parser/template.rs", "src/parser/base.rs", "src/compiler/value.rs"],
     [("text substitutions", "src/parser/text.rs"), ("tokens of text, quotes, whitespace and comments", "src/parser/tokenizer.rs"), ("templates", "src/parser/template.rs")],
     ["the rendered HTML", "exported values", "errors reported"],
     "texts of up to 3 characters (4-6 over smaller alphabets)")

prop("C06", "Values are coerced by one set of rules wherever a type is expected",
     "A value reaching a place with a declared or implied type - parameters of every kind, defaults, attributes, templates, text, list items - is accepted and converted exactly when the documented coercions permit it, to the same value at each such place; otherwise a type error is reported and the value is not used. No coercion alters a value that already has the type.",
     ["inputs", "programs"], "every type with up to one constructor and every value with up to one list or dictionary around ten kinds of leaves, at each of twelve kinds of places",
     "rules are a matrix of types, values and places of which tests sample a few cells.",
     ["src/compiler/value_convert.rs", "src/compiler/types.rs", "src/compiler/signature.rs", "src/compiler/value.rs", "src/compiler/tag.rs"],
     [("coercion", "src/compiler/value_convert.rs coerce"), ("type hints", "src/compiler/types.rs"), ("binding parameters", "src/compiler/signature.rs")],
     ["exported values", "the rendered HTML", "errors reported"],
     "types and values with up to one constructor (two in the thorough tier)")

prop("C07", "Types describe values: membership, type of, and equality are consistent",
     "The type reported for a value is one it belongs to, and the type of a list is the least type containing its elements; a value matches a type exactly when the value is of that type, in every form of type test. Equality of values is structural, symmetric, and holds between a value and itself unless it is or contains a function.",
     ["inputs", "programs"], "every value with up to two constructors; every pair of types and values, and of two values, with up to one constructor each",
     "laws over all pairs of values and types.",
     ["src/compiler/types.rs", "src/compiler/value.rs", "src/compiler/matcher.rs", "src/compiler/html.rs", "src/utils/sliceref.rs"],
     [("type lattice", "src/compiler/types.rs"), ("value equality", "src/compiler/value.rs"), ("type patterns", "src/compiler/matcher.rs")],
     ["results of @typeof, type patterns and equality patterns"],
     "values and types with up to one or two constructors; lists of up to three values")

prop("C08", "Arguments reach the parameters they name, or the call is an error",
     "In every call each parameter receives exactly the argument given for it - by position, by name, by spreading, as content, implicitly or by default - and every argument reaches exactly one parameter. A missing, surplus, duplicate or ill-typed argument is reported as an error, and binding arguments in advance has the same effect as giving them in the call.",
     ["inputs", "programs"], "every function of up to 2 parameters of all kinds (3 in the thorough tier), every call with up to 2 arguments of all kinds, and calls of functions bound in one or two steps",
     "signature, argument and spread kinds multiply to tens of thousands of combinations.",
     ["src/compiler/signature.rs", "src/compiler/func.rs", "src/parser/func.rs", "src/compiler/value.rs"],
     [("argument binder", "src/compiler/signature.rs"), ("bound functions", "src/compiler/func.rs"), ("parameter lists", "src/parser/func.rs")],
     ["exported values of all parameters", "errors reported"],
     "up to 2 parameters and 2 arguments, binding in up to two steps")

prop("C09", "A pattern matches exactly the values it describes and binds their parts",
     "A match expression takes the first branch whose pattern describes the value - literals, types, equality, lists, dictionaries, content and tags with spreads, templates and regular expressions, conjunctions and alternatives - and binds each of its variables to the corresponding part. A failed pattern leaves no bindings behind; if no branch matches, an error is reported.",
     ["inputs", "programs"], "every pattern of one construct over simple patterns against every value with up to one constructor; sequences with spreads anywhere of up to 3 parts",
     "patterns and values multiply; spread boundaries and discarded bindings need particular lengths and alternatives.",
     ["src/compiler/matcher.rs", "src/parser/matcher.rs", "src/compiler/frame.rs", "src/compiler/regex_value.rs"],
     [("matching automaton", "src/compiler/matcher.rs"), ("pattern compilation", "src/parser/matcher.rs"), ("bindings", "src/compiler/frame.rs")],
     ["the exported values of the branch taken and of its variables"],
     "one construct deep (two for some); sequences of up to 3 parts")

prop("C10", "Names resolve lexically, implicit arguments from enclosing implicit bindings",
     "A name denotes the innermost enclosing binding of it, for function bodies where the function was written, and bindings end where their scope ends. An implicit parameter not given explicitly takes the value of the innermost enclosing implicit binding of its name visible at the call; an unbound name or missing implicit argument is an error.",
     ["programs"], "every program of up to two of ten binding constructs over two variables and two functions; every chain of three bindings of nine kinds around a call with an implicit parameter",
     "needs shadowing, closures and implicit bindings combined.",
     ["src/compiler/frame.rs", "src/compiler/value.rs", "src/compiler/func.rs", "src/compiler/signature.rs"],
     [("frames", "src/compiler/frame.rs"), ("let, implicit, match and function definitions", "src/compiler/value.rs"), ("implicit lookup", "src/compiler/signature.rs bind_implicit_args")],
     ["exported values", "errors and warnings reported"],
     "two nested constructs in general, three to four for implicit bindings")


prop("C13", "Output files stay inside the output directory, at the path they name",
     "A document can have files written only inside the output directory: a path is accepted exactly when, resolved against that directory, it lies within it, and any other path is reported as an error and writes nothing. Every accepted file is handed over exactly once, in order, at the path it names and with the content it was given.",
     ["inputs", "histories"], "every path of up to 6 characters out of letters, dots and separators, or of two components (three or four in the thorough tier), for each of 12 output directories; sequences of up to three paths; calls in documents",
     "containment must hold for every combination of dots, separators and directory spellings; the tests try a few.",
     ["src/utils/relpath.rs", "src/utils/outfiles.rs", "src/compiler/native.rs"],
     [("path resolution", "src/utils/relpath.rs make_relative"), ("collector of output files", "src/utils/outfiles.rs"), ("native function", "src/compiler/native.rs file::write")],
     ["the paths and contents of the output files", "errors reported"],
     "12 output directories; paths of 6 characters or two components; up to three files. Symbolic links are not followed (the property is lexical).",
     state=[("output files", "the files accepted in this job, in order", "src/utils/outfiles.rs OutFiles.v")])

prop("C14", "Modules load once, paths resolve from their file, cycles are errors",
     "A path in @include, @import, @file::read or @file::list is resolved from the file it is written in; each module is compiled at most once per job however its path is spelled, and inclusion and import give its content and exports, and only the main document can write files. A file that cannot be read, an import cycle or a module with errors is reported as an error, and jobs do not influence each other.",
     ["programs", "histories", "fault_sequences"], "every project of three files with one or two statements each out of ten kinds and paths of up to 12 spellings, links, directories and missing files included; each of these compiled twice, with another file next, or with a module changed between",
     "needs particular file graphs, spellings and sequences of jobs; the tests use a handful of single imports.",
     ["src/compiler/module_loader.rs", "src/compiler/context.rs", "src/utils/relpath.rs", "src/compiler/native.rs", "src/compiler/exports.rs", "src/utils/sourcefile.rs"],
     [("module cache", "src/compiler/module_loader.rs"), ("compile jobs and reset", "src/compiler/context.rs"), ("relative paths", "src/utils/relpath.rs"), ("file functions", "src/compiler/native.rs")],
     ["the rendered HTML", "exported values", "diagnostics with their tracebacks", "output files"],
     "three source files of one or two statements (three in some scenarios); two jobs; a modelled file system in the executor, the real one in the replay",
     state=[("module states", "absent, being loaded, failed or loaded with its output and exports", "src/compiler/module_loader.rs"), ("unique IDs", "IDs issued since the job began", "src/utils/text.rs")])


prop("C22", "The command-line tool compiles what is named, where asked, and tells success",
     "The command-line tool compiles every source file named directly, by directory or by pattern, except libraries and, on request, sources not newer than their output; each that compiles without errors has its output, and the files it writes, put at the path named by it in the directory and format asked for. A source with errors has nothing written, all other files stay as they were, and the exit status is zero exactly when no source failed or could not be read or written. In standard-input mode the output is printed, without writing files, or else the status is non-zero.",
     ["inputs", "configurations", "histories", "fault_sequences"], "twenty ways to name sources in a tree of seven files, all combinations of options and six output directories, sources of nine kinds, outputs of any relative age, second runs after a change, and unwritable outputs",
     "the tests call the library; nothing runs the command-line tool.",
     ["src/bin/papyri.rs", "src/utils/relpath.rs", "src/utils/sourcefile.rs", "src/utils/outfiles.rs", "src/compiler/context.rs"],
     [("the tool", "src/bin/papyri.rs"), ("source files in a directory", "src/utils/relpath.rs find_papyri_source_files_in_dir"), ("libraries and extensions", "src/utils/sourcefile.rs")],
     ["the exit status", "the standard output", "all files after the run"],
     "a tree of seven files; three sources of varying kinds; one or two runs. The standard error output, warnings in standard-input mode and links are outside.",
     state=[("output files", "their contents and times from earlier runs", "the file system")])


prop("C16", "Code is shown as it was written, line by line, with its lines numbered",
     "A code fence or inline code shows exactly the text of its code, less surrounding blank lines and the indentation of its first line, escaped, whatever the highlighter makes of it: every line of a block in an element with its number, counted from the first one asked for. A first line that is a name is the language of a block instead, otherwise the one given or implied; a language is marked on the element, an unknown one and code of several lines or with line numbers outside a block are warned of. Brackets that match have one number, addresses in comments and strings are links to themselves, and neighbouring characters are marked alike exactly when they are of the same kind.",
     ["inputs"], "code of six characters, five ways to write it, five languages, eight first line numbers; Papyri source of three pieces; highlighters that cut and classify each of three characters in any of 21 ways",
     "the tests show no code at all.",
     ["src/compiler/highlight.rs", "src/compiler/highlight_papyri.rs", "src/compiler/native.rs", "src/utils/text.rs", "src/parser/tokenizer.rs", "src/std.papyri"],
     [("highlighting", "src/compiler/highlight.rs LineHighlighter"), ("Papyri source", "src/compiler/highlight_papyri.rs"), ("indentation and language", "src/utils/text.rs fix_indentation, get_source_language_hint"), ("line numbers", "src/compiler/highlight.rs enumerate_lines")],
     ["the HTML of the code", "the number of warnings"],
     "short pieces of code; syntect is replaced by an arbitrary highlighter, so which words of which language are keywords is outside, and so is the shape of code on several lines outside a block.")


prop("C24", "The standard library's functions build exactly what they stand for",
     "Each function of the standard library puts its content, if it is of the kind declared (inline, block, a string), in exactly the element it stands for, and refuses any other content. `@class`, `@style` and `@attributes` keep the element, its content and its other attributes, adding to the class or style there was; `@numbered` turns an unordered list, and nothing else, into an ordered one; `@function::call` passes every argument and the content on. `@page` is one complete document: title, style sheet and script at the web root whether or not that ends in a slash, the content in an article, and a header or footer only when given.",
     ["programs"], "29 functions of one argument with content of 15 kinds or seven elements of six sets of attributes, pairs of functions, calls of up to four arguments, pages with up to five arguments",
     "the tests call a few of these functions with one argument each.",
     ["src/std.papyri", "src/compiler/module_loader.rs", "src/compiler/native.rs", "src/compiler/func.rs", "src/compiler/matcher.rs", "src/compiler/html.rs"],
     [("standard library", "src/std.papyri"), ("loading it", "src/compiler/module_loader.rs compile_stdlib"), ("attribute patterns and spreads", "src/compiler/matcher.rs, src/compiler/tag.rs")],
     ["the HTML of the document", "whether an error is reported"],
     "short content; the texts of error messages, @code and @code_block (C16) and @typeof (C07) are decided elsewhere.")

prop("C23", "Regular expressions find what they describe, their groups as declared",
     "`@regex::find` is the first match, or the unit value: a string when the expression has no groups, a list of the match and its groups when they have no names, a dictionary of the named groups otherwise, a group that takes no part being the unit value. `@regex::find_all`, `count`, `test` and `split` agree with it on all matches, none overlapping. An expression with both kinds of groups, with a name that is no identifier, or that is malformed, is an error; two expressions are equal exactly when they are written alike, and nothing else belongs to the type `regex`.",
     ["inputs", "programs"], "expressions of up to two pieces, repeated in any of five ways, alternatives and groups of three kinds, on strings of three characters; 25 expressions that are accepted or not",
     "the tests search with eight expressions.",
     ["src/compiler/regex_value.rs", "src/compiler/native.rs", "src/compiler/value.rs", "src/compiler/types.rs", "src/utils/text.rs"],
     [("kinds of groups", "src/compiler/regex_value.rs RegexKind, compile_regex"), ("functions", "src/compiler/native.rs regex"), ("values", "src/compiler/value.rs Value::Regex")],
     ["the value returned", "whether an error is reported"],
     "the language of the regex crate beyond characters, `.`, sets, groups, alternatives and repetition; the real crate is encoded along with the rest. Subjects are chosen character by character, so the solver decides few of the branches.")

prop("C20", "HTML given as text becomes the tree it describes, and can be asked about",
     "`@html::parse` of a well-formed document, and `@net::fetch_html` of an answer, is the tree of its elements, attributes and text with names in lower case and character references decoded, less the document type and comments; text with a parse error is an error, except that the first of two attributes of one name counts. `@html::escape_html` is exactly the text to which its content renders. Content is empty exactly when it has no nodes, and white space exactly when it is empty or a single text of nothing else.",
     ["inputs"], "documents of one block of six kinds with two levels of inline content, characters and attributes written in several ways, 12 mistakes; values of 15 kinds and any element",
     "no test parses HTML.",
     ["src/compiler/html_parse.rs", "src/compiler/html.rs", "src/compiler/native.rs", "src/compiler/render.rs", "src/compiler/tag.rs"],
     [("parsing", "src/compiler/html_parse.rs"), ("questions", "src/compiler/html.rs is_empty, is_whitespace"), ("escaping", "src/compiler/native.rs escape_html_impl")],
     ["the value, rendered", "whether an error is reported"],
     "attributes without a value, and content that browsers move (tables, misplaced elements), are outside; html5ever is encoded along with the rest.")

prop("C21", "A document rendered as text has all of its text, and only the text",
     "With text as the output format a document is exactly the text of its content, in order and with every character as it is: no tags, attributes or entities. A paragraph is followed by an empty line, a thematic break is a line of its own, any other block element ends the line, and inline elements add nothing. What compiles as HTML compiles as text, and the other way round.",
     ["programs", "inputs"], "any three ASCII characters in six places; every element with content of 19 kinds, pairs and nested elements, documents of three pieces",
     "no test renders a document as text.",
     ["src/compiler/render.rs", "src/utils/taginfo.rs", "src/compiler/html.rs", "src/bin/papyri.rs"],
     [("rendering", "src/compiler/render.rs"), ("block elements", "src/utils/taginfo.rs is_block")],
     ["the text of the document", "whether an error is reported"],
     "small documents")

prop("C25", "The network is used only when allowed, as asked, and its faults are errors",
     "Without permission a document makes no request at all, and asking for one is an error. With it every `@net` call that is evaluated makes exactly one request, in order and for exactly the address given, and its value is the answer unchanged; a request that fails or whose answer breaks off is an error, and code that is not evaluated makes no request.",
     ["fault_sequences", "inputs"], "up to two requests, with or without permission, that fail, break off or are answered with any two characters, evaluated in four places",
     "tests have no network.",
     ["src/compiler/native.rs", "src/compiler/context.rs", "src/errors/runtime_error.rs"],
     [("requests", "src/compiler/native.rs native_fetch_impl"), ("permission", "src/compiler/context.rs http_client")],
     ["the requests made to a stand-in for the HTTP client", "the value", "whether an error is reported"],
     "the HTTP client is replaced by a stand-in that records the request and answers as the harness chooses; HTTP status codes are outside.")

prop("C26", "A document exports what it says, and importing gives exactly that",
     "The exports of a document are the names in the export statements that run, in the order first exported, each with its value (the last, with a warning, when exported again). An exported function is a variable where it stands; the names of an exported `@let` are variables inside it only, not implicit, and it has no content; other exports bind nothing. `@import` is exactly the dictionary of these; `@include` outputs the document and binds exactly these where it stands, none implicit, with a warning for a name bound there already.",
     ["programs"], "documents of up to two statements of 16 kinds, also inside each other: exports of names, functions and bindings, in groups, elements, functions, matches and bindings; imported or included in nine ways",
     "the tests export a value or a function at the top level.",
     ["src/compiler/exports.rs", "src/compiler/value.rs", "src/compiler/native.rs", "src/compiler/frame.rs", "src/compiler/module_loader.rs", "src/parser/base.rs"],
     [("export statements", "src/compiler/exports.rs compile_export"), ("exported bindings", "src/compiler/value.rs evaluate_let_in"), ("import and include", "src/compiler/native.rs IMPORT, INCLUDE")],
     ["the exports of the document in order", "the document", "whether an error or a warning is reported"],
     "small documents; export statements run by a function of another module are outside. A program's text follows from choices the executor enumerates, with symbolic digits: the solver decides the branches on those.")


prop("C27", "Source text is read by the grammar, brackets and all",
     "Every sequence of tokens is either a document of the language, and then means what its grammar says, or an error is reported: brackets, elements, ellipses, calls, bindings, definitions, attributes, patterns and types begin and end where the grammar says. Comments are nothing, spaces between the parts of an expression are nothing, and everything that is not part of an expression is text. End tags match without regard to case.",
     ["programs"], "every sequence of up to three of 55 tokens; up to five of smaller sets for each construct, also after a correct beginning; and every one-token insertion, removal or replacement in 29 documents of up to 30 tokens",
     "the tests are correct documents and one error of each kind.",
     ["src/parser/base.rs", "src/parser/func.rs", "src/parser/matcher.rs", "src/parser/tag.rs", "src/parser/text.rs", "src/parser/types.rs", "src/parser/queue.rs", "src/parser/tokenizer.rs"],
     [("expressions and groups", "src/parser/base.rs parse_expr_tok, parse_nodes_until"), ("calls and definitions", "src/parser/func.rs"), ("patterns", "src/parser/matcher.rs"), ("elements", "src/parser/tag.rs")],
     ["whether an error or a warning is reported", "the document"],
     "the tokens of quoted templates are outside (C03 and C05 have these in correct programs), as are paths for the names of elements; tokens that would run into each other are left out. Token sequences follow from choices the executor enumerates, with symbolic digits and code text: the solver decides the branches on those.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in sorted(P, key=lambda x: x[0]["id"]):
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    man = {
        "version": 1, "setup_cmd": "true",
        "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                    "technique": "symbolic execution of the crate's LLVM IR (own executor, regenerated from /repo per run) with z3 deciding branches and assertions; counterexamples replayed natively",
                    "level": "model_checking", "level_note": note, "evidence_file": f"evidence/{p['id']}.json"} for p, note in sorted(P, key=lambda x: x[0]["id"])],
        "not_applicable": NOT_APPLICABLE,
        "notes": "Exit 2 (UNDECIDED) means the solver or the executor could not decide within its limits; see DESIGN.md.",
    }
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
