"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os
F = "sqlparams/__init__.py"; C = "sqlparams/_converting.py"; S = "sqlparams/_styles.py"; U = "sqlparams/_util.py"
ALLC = "Named/Numeric/OrdinalTo{Named,Numeric,Ordinal}Converter"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=("SQLParams.format", "SQLParams.formatmany")):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Every placeholder keeps the value of the parameter it replaces",
  "For every pair of supported styles, every query and every parameter set, the n-th parameter written in the input query is replaced, at the same place, by a placeholder of the output style that the returned parameters bind to the very same object the input parameters bound it to (element by element and in order when a tuple is expanded). "
  "Repeating, reordering, mixing or sharing parameters, the number of parameters and their spelling never make two different values change places or one value stand in for another.",
  ["inputs", "configurations"], "all 81 style pairs x expand_tuples x output quoting, all queries (any number, order and repetition of parameters), all value shapes",
  "The tests run a handful of queries with one to three parameters per style pair; the claim is over every order, repetition, count and shape.",
  [C, S], [("regex callbacks choosing in-key and out-key", ALLC + ".__regex_replace"), ("conversion plan applied to the values", ALLC + ".__convert_params")],
  [("param_conversions", "plan of (expand?, in key, out key) built while scanning the query", C)], ["SQLParams.format"])

p("C02", "Only real parameters are replaced; all other text is kept verbatim",
  "With escaping off, a parameter is recognised exactly where the input style's syntax occurs and is not directly preceded by that style's own introducing character (so PostgreSQL '::type' casts, '@@name', '$$', '??' and date-times are left alone for named styles; 'qmark' also requires no '?' after it), and names are an ASCII letter or underscore followed by word characters, matched to their full length. "
  "Every other character of the query, including quotes, whitespace, line breaks and text that looks like a parameter of some other style, appears unchanged and in order in the output; the only exception is the doubling of '%' described in C04.",
  ["inputs", "configurations"], "every query string, every style pair",
  "The tests check two or three hand-written look-alikes per style; the claim is over every string, in particular adjacent and truncated parameter syntax.",
  [S, F, C], [("parameter regular expressions", S + " STYLES[*].param_regex"), ("combined scanner", F + " SQLParams.__create_in_regex"), ("single-pass substitution", ALLC + ".convert")])

p("C03", "Escape sequences yield exactly the escaped literal and nothing else",
  "With an escape character configured (True for the style's own introducing character, or any custom string), each occurrence of the escape string followed by the style's introducing character becomes one literal introducing character that does not start a parameter; occurrences are paired from left to right, so with escape_char=True an odd run such as '%%%s' or ':::name' is escaped literals followed by a real parameter. "
  "Everything else is treated as without escaping, and with escape_char None, False or '' doubled characters pass through unchanged.",
  ["inputs", "configurations"], "every query string, every input style, escape_char in {None, False, '', True, custom strings}, every output style",
  "Each escape test uses one literal with an even pair inside a string; runs of three or more, escapes next to parameters and custom escape characters are not tested.",
  [F, S, C], [("escape alternative in the scanner", F + " SQLParams.__create_in_regex"), ("escape regular expressions", S + " STYLES[*].escape_regex"), ("escape branch of the callbacks", ALLC + ".__regex_replace")])

p("C04", "Percent signs survive: applying the % operator restores the text",
  "When converting from a style that does not use '%' to 'format' or 'pyformat', applying Python's own % operator to the returned query and parameters succeeds and yields the input text with each parameter replaced by its value, every literal '%' of the input appearing once. "
  "When converting between 'format' and 'pyformat' (either way or to themselves, with escape_char None or True), any input in which '%' only occurs as '%%' or in recognised parameters renders to the same text before and after the conversion; when converting from a %-style to any other style with escape_char=True each '%%' becomes one '%', and without it '%' is never changed.",
  ["inputs", "configurations"], "every query containing '%' in any position, every style pair in which either side is a %-style, escaping on and off",
  "The tests use one '5 % :value' query per pair; percent next to parameters, at the ends, inside look-alikes such as '%(x)s' or '%s' literals, and %-to-% with escaping are not settled by them.",
  [F, C, S], [("out_percent alternative", F + " SQLParams.__create_in_regex"), ("doubling in the callbacks", ALLC + ".__regex_replace")])

p("C05", "Tuples expand to a parenthesised list in order; nothing else expands",
  "With tuple expansion on (the default exactly when the output style is numeric or ordinal, or when requested) every occurrence of a parameter whose value is a tuple, including named tuples and other tuple subclasses, becomes '(' placeholders joined by ',' ')' bound to its elements in order, and '(NULL)' binding nothing if the tuple is empty. "
  "Elements that are themselves tuples are not expanded further, non-tuple values (lists, strings, sets, ranges, None and so on) are never expanded, and with expansion off a tuple is passed through as one value.",
  ["inputs", "configurations"], "all style pairs, expand_tuples in {None, True, False}, all value types and tuple lengths, repeated and mixed use",
  "The tests use one two- or three-element tuple per converter and one empty tuple next to another parameter.",
  [C, F], [("tuple branch of the callbacks", ALLC + ".__regex_replace"), ("default of expand_tuples", F + " SQLParams.__init__")])

p("C06", "formatmany is format applied to every row, or an error",
  "formatmany returns the query that format returns for the first row, and a list with exactly one entry per row, in row order, equal to what format returns as the parameters of that row, for every kind of iterable of rows, consumed once, rows being free to differ in container type and key spelling. "
  "If a later row has a tuple where the first had a tuple of another length, or a non-tuple where the first had an expanded tuple (empty tuples included), it raises ValueError or TypeError instead of dropping or misplacing values; an empty iterable raises an ordinary error and never lets StopIteration escape.",
  ["inputs", "configurations", "histories"], "all style pairs, all row counts, all combinations of value shapes over the rows, all iterable kinds",
  "The tests pass two or three uniform rows and one mismatching row per converter, never an empty tuple first, a generator of mixed rows, or no rows.",
  [C, F], [("plan from the first row", ALLC + ".convert_many"), ("per-row shape checks", ALLC + ".__convert_many_params"), ("iteration entry", F + " SQLParams.formatmany")],
  [("param_conversions", "plan derived from row 0 and reused for all rows", C)], ["SQLParams.formatmany"])

p("C07", "Returned parameters are exactly those the output query refers to",
  "For ordinal output the list has one entry per placeholder; for numeric output the numbers in the query are exactly 1..n for a list of length n, handed out in order of first appearance, with each distinct named or numeric source parameter (and each element of a tuple) using one number however often it appears, and each ordinal source occurrence its own; for named output the keys are exactly the names in the query. "
  "Source parameters that are not mentioned in the query contribute nothing, different source parameters never share a number or a name (case-insensitive clashes of unquoted Oracle names aside), and a query without parameters yields an empty container for every style pair.",
  ["inputs", "configurations"], "all style pairs, all parameter multisets and value shapes, including none at all",
  "Tests never convert a parameterless query to a numeric style, and look at numbering only for two or three parameters.",
  [C], [("out_counter and out_lookup", C + " NamedToNumericConverter/NumericToNumericConverter.__regex_replace"), ("row size", C + " *ToNumericConverter.__convert_params"), ("generated names", C + " *ToNamedConverter.__regex_replace")],
  [("out_lookup", "number already given to a source parameter", C)])

p("C08", "A call's result never depends on earlier calls",
  "The result of format or formatmany is a function of the instance's configuration and the arguments of that call alone: any sequence of earlier calls on the same instance, on other instances with the same or another configuration, calls that raised, and calls made from inside the caller's own containers while another call is running, leave it unchanged.",
  ["histories"], "all finite sequences (and nestings) of successful and failing calls on any set of instances in one process",
  "Every test creates a fresh instance and makes one call on it.",
  [F, C, S], [("no per-call state on instance, class or module", F + " SQLParams; " + C + " Converter; " + S + " STYLES")],
  [("__converter, __in_regex, __strip_comment_regexes", "built once in __init__, never changed", F), ("STYLES", "module-level registry", S)])

p("C09", "One instance can be shared by threads without calls interfering",
  "When several threads call format and formatmany at the same time on one shared instance, or on instances created at the same time, every call returns what it would return if it ran alone, under every interleaving of the threads.",
  ["schedules"], "all interleavings of concurrent calls on shared instances",
  "The test suite is single-threaded.",
  [F, C, S], [("call-local plan, counters and lookup passed through partial()", ALLC + ".convert/convert_many")],
  [("param_conversions, out_counter, out_lookup", "must stay local to a call", C)])

p("C10", "Arguments are never modified and results are fresh objects",
  "Neither construction nor format nor formatmany changes the caller's query, parameter containers, row collections, values or option lists, whether the call succeeds or fails. "
  "The returned containers are new on every call and for every row (a dict for named output, a list otherwise): they are not the caller's containers, no two rows or calls share one, and changing them later affects neither the inputs nor any later result, while the values in them are the caller's own objects.",
  ["inputs", "histories"], "all style pairs, value shapes and row counts, with and without expansion, successful and failing calls",
  "Tests compare values for equality only; aliasing and mutation of the inputs are never looked at.",
  [C, F], [("fresh out_params per row", ALLC + ".__convert_params/__convert_many_params"), ("mapping copied to int keys", C + " _mapping_as_sequence")])

p("C11", "Values never influence or leak into the query text",
  "The query returned by format or formatmany depends only on the input query, the configuration and, for each referenced parameter, whether its value is a tuple to be expanded and of what length; whatever the values are (text full of quotes, parameter syntax or percent signs, objects of any class), they never appear in it. "
  "A successful call never compares, hashes, formats, calls, copies or otherwise consults a value beyond that tuple test.",
  ["inputs", "configurations"], "all values of all types in all positions of all queries, all style pairs",
  "Tests bind harmless names and numbers, so neither a leak nor a dependence on the value could show.",
  [C], [("values only looked at with isinstance(value, tuple) and len", ALLC + ".__regex_replace"), ("single pass: replacements are not rescanned", ALLC + ".convert")])

p("C12", "Byte queries behave as their Latin-1 text, byte for byte",
  "For a bytes query the returned query is bytes and equals the Latin-1 encoding of what the same call returns for the Latin-1 decoding of the query, with the same parameters, in format and formatmany, for every configuration; all 256 byte values outside parameters pass through unchanged. "
  "A str query always yields a str.",
  ["inputs", "configurations"], "all byte strings, all style pairs and options",
  "Two tests convert a short ASCII byte query in one style pair.",
  [F], [("decode and encode with _BYTES_ENCODING", F + " SQLParams.format/formatmany")])

p("C13", "Comment stripping removes exactly the comments that begin a line",
  "With strip_comments set, a configured comment whose start is the first non-blank text (spaces and tabs) of a line is removed together with that leading blank space and the line ending (LF or CRLF) directly after it: single-line comments to the end of the line, multiline comments through the first occurrence of their end, whatever order the styles are listed in. "
  "Trailing comments, unterminated multiline comments and all other text stay untouched (a single-line comment directly after a multiline one that began the line may count as either), parameters in removed comments need no value and count for nothing, True means '--' and '/* */', and None, False or an empty list strip nothing.",
  ["inputs", "configurations"], "all queries over comment delimiters, line breaks and parameters; all lists of comment styles",
  "Nine fixed queries with the default styles; custom style lists, CRLF, adjacent or nested delimiters and interaction with parameters are not covered.",
  [F], [("comment regular expressions", F + " SQLParams.__create_strip_comment_regexes"), ("applied before conversion", F + " SQLParams.__strip_comments_from_sql")],
  [("__strip_comment_regexes", "compiled comment patterns", F)])

p("C14", "Missing or ill-typed parameters always raise, never bind something else",
  "If a parameter of the query has no value (name absent; number below 1 or beyond the end of a sequence, or not a key of the mapping; fewer ordinals than placeholders), in format or in any row of formatmany, a lookup error is raised; parameters of the wrong container kind for the style (a non-mapping for named, a string or non-container for numeric and ordinal), rows that are, a many_params that is a string or not iterable, and a query that is neither str nor bytes raise TypeError. "
  "No such call returns a result, and names in the query never match a differently spelled key (Oracle names aside).",
  ["inputs", "configurations"], "all style pairs, all ways of removing or corrupting a parameter or a row at any position",
  "Tests only cover the tuple type and length mismatches of formatmany.",
  [C, F, U], [("isinstance checks", ALLC + ".convert/convert_many"), ("plain indexing of the containers", ALLC + ".__regex_replace"), ("is_sequence/is_iterable", U)])

p("C15", "Equivalent parameter containers give identical results",
  "For numeric input, a sequence [v1, v2, ...] and mappings {1: v1, 2: v2, ...} or {'1': v1, '2': v2, ...} give identical results, and for ordinal input a sequence and the mappings keyed 0, 1, ... or '0', '1', ... do; any mix of int and str keys, insertion order, extra entries (unused keys of any kind for numeric and ordinal, unused string keys, correctly quoted ones for Oracle, for named) and any Mapping or Sequence class in place of dict and list make no difference. "
  "Numbers in the query are read by value, so ':01' and ':1' mean the same parameter.",
  ["inputs", "configurations"], "all style pairs, all container kinds, key kinds, insertion orders and extra entries",
  "Tests use a list, an int-keyed and a str-keyed dict in order, without extras, for most but not all operations.",
  [C, U], [("_mapping_as_sequence", C + " NumericConverter/OrdinalConverter"), ("is_sequence", U)])

p("C16", "Oracle parameter names follow Oracle's quoting and case rules",
  "With 'named_oracle' input an unquoted name matches parameter keys without regard to case, a quoted name matches case-sensitively, an unquoted key or name means its upper-case form, and a key in double quotes means exactly the text inside; this holds in format and in every row of formatmany independently of how each row spells its keys. "
  "With 'named_oracle' output and allow_out_quotes each placeholder and its key are written in double quotes around the same name; without it, and for every other output style, no quotes are added.",
  ["inputs", "configurations"], "all spellings (case, quotes) of names in the query and of keys in each row, all output styles",
  "Tests use six queries whose rows all spell their keys the same way.",
  [C, S], [("oracle key search", C + " NamedTo*Converter.__regex_replace"), ("_unquote_oracle_param/_quote_oracle_param", C), ("named_oracle style", S)])

p("C17", "Converting in two steps equals converting directly",
  "For queries whose literal text is not a parameter, escape or percent sign of any style involved and whose parameters stand apart from neighbouring word characters (unquoted Oracle names that differ only by case aside), converting from style A to B and the result from B to C yields the same literal text and the same sequence of bound values as converting from A to C directly; in particular converting from A to B and back to A preserves which values are bound where. "
  "This holds for all 729 triples of styles, with tuples expanded in either step, and for formatmany.",
  ["inputs", "configurations"], "all triples of styles, all parameter sequences and shapes",
  "No test feeds an output back in; generated names and numbers are only compared with literals.",
  [C, S, F], [("generated names must be valid in-names", C + " *ToNamedConverter.__regex_replace"), ("out_format and param_regex of a style agree", S)])

p("C18", "Construction accepts exactly the documented options and reports them",
  "Every ordered pair of the nine documented style names can be constructed; an unknown style name raises KeyError, a non-string style, an escape_char that is not empty and neither a string nor a bool, and a comment style that is neither a string nor a sequence raise TypeError. "
  "The instance's in_style, out_style, escape_char, expand_tuples and strip_comments report the effective configuration (True resolved to the default, None to off or to the style-dependent default), cannot be assigned, and later changes to a list passed as an option do not change how queries are converted.",
  ["configurations", "histories"], "all combinations of style names and option values, valid and invalid",
  "Tests construct instances with valid options only and read none of the properties.",
  [F, S], [("argument checks and defaults", F + " SQLParams.__init__"), ("read-only properties", F + " SQLParams"), ("STYLES", S)], (), ["SQLParams.__init__", "SQLParams properties"])

p("C19", "A real database reads the converted query as intended",
  "For output styles that SQLite understands (qmark, numeric as ':1', named, named_dollar, named_sqlserver, numeric_dollar), executing the converted query with the converted parameters returns exactly the rows obtained by writing the values into the original query by hand, for SELECT expressions, IN lists and WHERE conditions, and executemany with formatmany stores exactly the given rows. "
  "This holds for every input style, with repeated parameters, tuples (an empty one matches nothing) and NULL, numeric, text and blob values, including text full of quotes and parameter syntax.",
  ["inputs", "configurations"], "all input styles x the SQLite-readable output styles, all parameter sequences and value shapes within SQL templates",
  "No test executes anything; expected outputs are hand-written strings.",
  [C, F, S], [("whole conversion path", F + " SQLParams.format/formatmany")])

p("C20", "Errors from the caller's containers surface and leave no damage",
  "If a mapping, sequence or iterable supplied by the caller raises at any point while it is being read, that same exception reaches the caller and no partial result is returned; rows are drawn from the iterable once and in order. "
  "Afterwards the instance and the caller's objects work as before, and a container may itself use the instance while it is being read.",
  ["fault_sequences", "inputs"], "every access to every caller-supplied container as the point of failure, all style pairs",
  "No test uses a container that fails.",
  [C, F], [("no exception handling around caller objects", ALLC), ("iteration of many_params", ALLC + ".__convert_many_params")])

p("C21", "Nothing of a call is kept once its results are dropped",
  "After a format or formatmany call has returned or raised and the caller has dropped its result or exception, neither the instance, nor other instances, nor the package keeps a reference to the parameter containers, rows, iterables or values of the call, whatever calls came before, so that large or secret values can be freed. "
  "A result that is kept refers to the values it contains, not to the containers it was made from.",
  ["histories", "configurations"], "all histories of successful, failing and nested calls up to a depth, runs of many calls, all style pairs",
  "No test looks at what an instance keeps; a cache that holds on to values is invisible to tests of results.",
  [C, F], [("converters keep only their styles and options", ALLC), ("no per-call state on the instance", F + " SQLParams")])

p("C22", "An interrupted call leaves no damage",
  "If an exception that does not come from the call itself (Ctrl-C, a timeout raised by a signal handler) ends a format or formatmany call or a construction between any two of its steps, that exception reaches the caller and no state is left half-changed: "
  "the same instance, other instances and new ones, used afterwards for the same or other queries, behave exactly as if the interrupted call had never been made.",
  ["fault_sequences", "crash_points"], "every source line of the package executed by a call as the point of interruption, all style pairs, pairs of interruptions",
  "No test interrupts a call; a cache entry or a flag set halfway is only seen by the next call.",
  [C, F, S], [("no state outside local variables during a call", ALLC), ("constructor", F + " SQLParams.__init__")])

p("C23", "Conversions have no side effects on the process",
  "Constructing instances and calling format or formatmany, whether they succeed or fail and in any order, prints nothing, issues no warnings or warning-level log records, writes no files, starts no threads, processes or connections, "
  "and leaves the interpreter as it was: environment, working directory, locale, recursion and digit limits, signal handlers, garbage collection, random and decimal state, tracing, warning filters, logging set-up, context variables, built-ins and other standard modules, class registries, database adapters, pickling and exit handlers.",
  ["histories", "configurations", "inputs"], "all histories of successful and failing operations up to a depth, all style pairs, unusual texts and sizes",
  "Tests compare results and see nothing of what else a call does, least of all after a failure.",
  [C, F, S], [("conversion code works on its arguments only", ALLC), ("constructor and both methods", F + " SQLParams")])

p("C24", "No input makes a conversion run away",
  "Every call of format and formatmany ends, in time that grows at most with the square of the query's length and in proportion to the number of rows, tuple elements and parameters (for Oracle input, parameters times entries), and without exhausting the stack. "
  "No text makes it exponential or endless: not half a parameter, an unterminated comment or quote, deep nesting or indentation, a long run of one character or of any repeated pattern, nor a very long name.",
  ["inputs", "configurations"], "all repetitions of short patterns of syntax between all beginnings and ends, every dimension of the input large, all style pairs, escaping, comments and tuples on and off",
  "Tests use queries of a few lines; backtracking in a regular expression and quadratic work on rows show only on long or unusual ones.",
  [F, S, C], [("combined regular expression", F + " SQLParams.__create_in_regex"), ("comment regular expressions", F + " SQLParams.__create_strip_comment_regexes"), ("conversion of rows", ALLC + ".convert_many")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fh.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
