#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state, observe, hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name="abstract state", meaning=state, where=mech[0][1])], observe_at=[observe], hook_needed=None)))

p("C01", "Text outside tags is output verbatim; trim markers remove only whitespace",
  "Every character of a template that lies outside tags is written to the output exactly once, unchanged and in its original place, and tags and comments themselves contribute no characters. "
  "A trim marker on a begin tag removes exactly the Unicode whitespace ending the text run directly before that tag, a trim marker on an end tag removes exactly the whitespace starting the text run directly after it, and no other character is removed. "
  "Without trim markers nothing is removed, and trimming never reaches past a neighbouring tag.",
  ["inputs"], "every template text (any Unicode text runs, any mix of expression, block and comment tags, any combination of trim markers)",
  "tests/render.rs samples a few dozen ASCII layouts; adjacency of trimmed tags, whitespace-only runs, comments between trims and non-ASCII whitespace are combinations the tests do not enumerate.",
  ["src/compile/lex.rs", "src/compile/parse.rs", "src/render/core.rs"],
  [("raw text and trimming", "src/compile/lex.rs lex_template / left_trim"), ("comment skipping", "src/compile/lex.rs lex_comment, src/compile/parse.rs parse_template"), ("raw emission", "src/render/core.rs EmitRaw")],
  "position in the text, pending left-trim flag", "rendered string of templates")

p("C02", "Tags are found leftmost-longest under any configured delimiters",
  "With any configured set of non-empty delimiters, scanning text finds the delimiter (or its trim variant) that starts earliest and, among those starting there, the longest. "
  "Delimiter kinds that are not configured are plain text, and a template means the same when its delimiters are consistently renamed to another configuration that does not collide with its text. "
  "A delimiter of the wrong kind at a place where it cannot occur is a syntax error, never misread as text.",
  ["configurations", "inputs"], "every syntax configuration (overlapping, nested, prefix-sharing, partially configured delimiters) and every text",
  "tests use a handful of hand-picked syntaxes; overlaps between twelve patterns at arbitrary text positions cannot be enumerated by hand.",
  ["src/compile/search/ahocorasick/mod.rs", "src/compile/search/ahocorasick/build.rs", "src/types/syntax.rs", "src/compile/lex.rs"],
  [("multi-pattern search", "src/compile/search/ahocorasick"), ("pattern table", "src/types/syntax.rs SyntaxBuilder::build"), ("tag tokens", "src/compile/lex.rs")],
  "the pattern set of the engine and the scan position", "compile result and rendered string under custom syntaxes")

p("C03", "Compilation accepts exactly the documented syntax and never panics",
  "Compiling any text either succeeds or returns a syntax error, and never panics or hangs (for nesting up to several hundred levels). "
  "It succeeds exactly when the text follows the documented syntax: well-formed tags and comments, properly nested and closed if/else/for/with blocks with at most one final else, include with a string name, pipelines of filter names with comma separated arguments, and reserved keywords never used as names. "
  "What was accepted renders with the block structure and expressions that were written.",
  ["inputs", "programs"], "every text, well-formed or not",
  "tests/compile.rs lists about sixty hand-written good and bad templates; the set of token sequences and block nestings is unbounded.",
  ["src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs"],
  [("tokens", "src/compile/lex.rs lex_block"), ("block/scope stacks", "src/compile/parse.rs parse_template"), ("expressions", "src/compile/parse.rs parse_expr")],
  "lexer mode, stack of open blocks", "Ok/Err of compile and add_template, and rendered output of accepted text")

p("C04", "Literals denote exactly the value that is written",
  "A decimal, binary (0b), octal (0o) or hexadecimal (0x) integer literal with optional sign and underscores denotes exactly that integer when it fits in 64 signed bits; out of range non-decimal literals and invalid digits are syntax errors, and decimal numbers written with a fraction or exponent denote the nearest float. "
  "A string literal denotes its characters with the escapes \\n \\r \\t \\\\ \\\" replaced, any other escape or an unterminated string being a syntax error, and true/false denote the booleans. "
  "This holds wherever a literal may occur: emitted, piped, as a filter argument, as a condition, loop source, with value and include name.",
  ["inputs"], "every literal spelling in every syntactic position",
  "tests check around twenty literals, none at the 64-bit boundaries in every base or with every mix of signs, underscores and escapes in each position.",
  ["src/compile/parse.rs", "src/compile/lex.rs"],
  [("numbers", "src/compile/parse.rs parse_literal_integer / parse_literal_float"), ("strings", "src/compile/parse.rs parse_string, src/compile/lex.rs lex_string")],
  "none (pure)", "value seen by a filter or formatter, rendered text, compile errors")

p("C05", "Errors in templates point at the offending source location",
  "Every syntax error, and every render error raised by an expression, loop, filter call or include, when shown in its detailed form names the template and gives the 1-based line and the column (in terminal display columns) at which the offending token, path member, filter name, argument or block starts in that template's source. "
  "The quoted source line is that line of the source verbatim and the caret underline starts under that column and spans the display width of the offending fragment.",
  ["inputs"], "every erroneous template (multi-line, non-ASCII, nested includes) and every failing position in it",
  "tests compare about a hundred messages, almost all on ASCII single-line templates; the position arithmetic over line breaks, wide characters and included templates is unbounded.",
  ["src/error.rs", "src/compile/parse.rs", "src/compile/lex.rs", "src/render/core.rs"],
  [("line/column computation", "src/error.rs Pretty::build, to_ln_col"), ("spans", "src/types/span.rs, src/compile/parse.rs"), ("name attribution", "src/error.rs with_template_name")],
  "source text and span", "alternate Display ({:#}) of returned errors")

p("R01", "Conditionals render exactly the first branch whose condition is truthy",
  "An if / else if / else statement renders exactly one branch: the first whose condition holds, else the else branch, else nothing. "
  "Conditions are evaluated in order and none after the deciding one is evaluated; `not` negates. "
  "None, false, zero, the empty string, the empty list and the empty map are falsy and every other value is truthy.",
  ["programs", "inputs"], "every nesting and chain of conditionals and every value of every condition",
  "tests cover chains of length two or three with a few values; combinations of chain length, nesting, negation and value kinds (negative zero, NaN, empty containers from filters) are not enumerated.",
  ["src/compile/parse.rs", "src/compile/mod.rs", "src/render/core.rs", "src/render/value.rs"],
  [("else-if desugaring", "src/compile/parse.rs EndIf"), ("jumps", "src/compile/mod.rs IfElse"), ("truthiness", "src/render/value.rs as_bool")],
  "control stack of the render machine", "rendered text and the sequence of filter / value function calls")

p("R02", "Loops visit every element exactly once, in order, with correct loop data",
  "A for loop renders its body once per element: list elements in list order, map entries in ascending key order, and not at all when empty. "
  "In the body the loop variables are bound to the current element (or key and value), loop.index counts from zero, loop.first and loop.last hold exactly on the first and last iteration, and inside nested loops these describe the innermost loop and are restored when it ends. "
  "Iterating over anything that is not a list with one variable or a map with two is a render error.",
  ["programs", "inputs"], "every loop nesting over lists and maps of any size, borrowed from the context or produced by filters",
  "tests run loops of up to three elements; nested loops, loops over values computed by filters, empty and single element collections and their combinations with includes are sampled at most once.",
  ["src/render/iter.rs", "src/render/core.rs", "src/compile/mod.rs"],
  [("iteration state", "src/render/iter.rs LoopState"), ("loop instructions", "src/render/core.rs LoopStart / LoopNext")],
  "stack of active loops with position and remaining count", "rendered text")

p("R03", "Names resolve to the innermost enclosing binding and never outlive it",
  "A name in an expression denotes the innermost enclosing binding of that name: with variables, loop variables and the implicit loop variable shadow outer ones, and the render context is searched last. "
  "A binding is visible exactly in the body of its block (including templates included from there without their own context), shadowed bindings are visible again afterwards, and an expression that introduces a binding is evaluated before it. "
  "A name bound nowhere is a render error.",
  ["programs"], "every nesting of with, for and include and every reuse of names",
  "tests shadow once or twice; arbitrary nesting orders, re-binding in terms of itself, and visibility after a block or an include ended are not enumerated.",
  ["src/render/stack.rs", "src/render/core.rs", "src/render/iter.rs"],
  [("scope stack", "src/render/stack.rs lookup_var / push / pop"), ("with / loop scopes", "src/render/core.rs")],
  "stack of scopes", "rendered text, error kind, calls of the value function")

p("R04", "Member access yields exactly the addressed member; optional access yields none",
  "A dotted path yields the value reached by following map keys and zero-based list indices from its first name. "
  "If a key is missing or an index is out of bounds the render fails, unless that step is written with the optional operator, in which case the whole path yields none; accessing a member of a value that has no such kind of member fails either way. "
  "The same rules hold whether the path starts at a context value, a with variable, a loop variable or the loop data.",
  ["inputs", "programs"], "every path over every value shape and every kind of root",
  "tests try a few present and missing members on context maps; the product of root kinds, value kinds, operators and depths is not covered.",
  ["src/render/value.rs", "src/render/stack.rs", "src/render/iter.rs"],
  [("member lookup", "src/render/value.rs lookup / lookup_path / lookup_path_maybe"), ("loop roots", "src/render/iter.rs lookup_var / lookup_loop")],
  "none beyond scopes", "rendered text or error kind")

p("R05", "Include renders the named template in place, with the prescribed scope",
  "An include statement renders, at its place, exactly the template registered under that name when rendering (or the one returned by the render's template function, which is asked once per executed include). "
  "Without a context expression the included template sees every binding visible at the include; with one it sees only that value's entries and nothing of the including templates, and in both cases rendering then continues after the include with the including template's bindings unchanged. "
  "An unknown template, or a failing template function, is a render error.",
  ["programs", "histories"], "every include graph, with and without context, inside any blocks",
  "tests include once or twice from the top level; include inside loops and with blocks, chains of contexts and re-registration between renders are not combined.",
  ["src/render/core.rs", "src/render/stack.rs", "src/render/mod.rs"],
  [("template stack", "src/render/core.rs render"), ("scope boundary", "src/render/stack.rs Boundary"), ("template resolution", "src/render/core.rs get_template")],
  "stack of active templates and scope boundaries", "rendered text, template function calls")

p("R06", "Include nesting is bounded exactly by the configured maximum depth",
  "Rendering fails with a render error as soon as an include statement would bring the number of nested templates, counting the root, above the maximum include depth (64 by default, settable on the engine and overridable per render), and never because of fewer or of sequential includes. "
  "Hence rendering always terminates, even for recursive includes, and includes that have finished do not count.",
  ["programs", "configurations"], "every include graph (self, mutual, data-driven recursion) and every depth setting",
  "one test uses a single self-recursive template; exactness at the boundary for different depths, settings and sequential or nested includes is not tested.",
  ["src/render/core.rs", "src/lib.rs", "src/render/mod.rs"],
  [("depth check", "src/render/core.rs render"), ("settings", "src/lib.rs set_max_include_depth, src/render/mod.rs with_max_include_depth")],
  "length of the template stack", "result, and output produced before the failure")

p("R07", "Rendering is total: any compiled template yields text or a typed error",
  "Rendering a successfully compiled template with any context value, functions and settings terminates without panicking and returns either the complete output or an error. "
  "The output is exactly the concatenation, in program order, of the text and formatted expressions on the executed path. "
  "The outcome is the one prescribed by the language semantics of the whole template, for all constructs in combination.",
  ["programs", "inputs"], "every program over all constructs (text, expressions, filters, conditionals, loops, with, include) and every context",
  "each test exercises one construct; interactions of constructs are unbounded and untested.",
  ["src/render/core.rs", "src/render/stack.rs", "src/compile/mod.rs"],
  [("render machine", "src/render/core.rs render_one"), ("code generation", "src/compile/mod.rs")],
  "program counter, expression register, scope stack, template stack", "result of to_string / to_writer")

p("F01", "Filter pipelines apply every filter once, left to right, with its own arguments",
  "Evaluating `value | f: a, b | g` calls f exactly once with the value and its arguments in written order, then g exactly once with f's result, and so on; the result of the last call is the value of the expression, wherever the expression occurs. "
  "Arguments are literals or paths evaluated in the scope of the expression. "
  "A missing function, a formatter in filter position or a wrong number of arguments is a render error and no later filter of that pipeline is called.",
  ["programs"], "every pipeline, arity and argument list, in every position an expression may occur",
  "tests use at most two filters and two arguments; order, multiplicity and argument binding across arities and positions are not enumerated.",
  ["src/render/core.rs", "src/filters/mod.rs", "src/filters/impls.rs", "src/compile/mod.rs", "src/compile/parse.rs"],
  [("application", "src/render/core.rs Apply / EmitWith"), ("argument passing", "src/filters/mod.rs FilterArgs"), ("generated arities", "src/filters/impls.rs")],
  "expression register", "recorded filter calls with arguments, rendered text")

p("F02", "Filters receive typed arguments exactly, or the call is a render error",
  "For every supported parameter type and position, a filter receives exactly the template value when it has that type: integers unchanged for every integer width that can hold them, floats, booleans, none, strings, lists and maps, by value or by reference. "
  "A value of another type, an integer outside the parameter's range, or a non-referencable argument is a render error and the filter is not called. "
  "Values returned by filters are converted to template values without change, and an error returned by a filter becomes a filter error with its message.",
  ["inputs"], "every parameter type (all integer widths, floats, bool, unit, strings, lists, maps, values, references), every position and every value",
  "tests cover a few types with one value each; the boundaries of each width and the 75 generated implementations for by-reference parameters are not covered.",
  ["src/filters/args.rs", "src/filters/mod.rs", "src/filters/impls.rs", "src/value/from.rs"],
  [("conversions", "src/filters/args.rs"), ("generated impls", "src/filters/impls.rs"), ("returns", "src/filters/mod.rs FilterReturn, src/value/from.rs")],
  "none", "echo filters of every signature, error kind")

p("F03", "Each emitted expression goes through exactly one formatter; text through none",
  "An emitted expression is written by the formatter named last in its pipeline if there is one, otherwise by the engine's default formatter, called exactly once with the final value. "
  "Literal template text, values used in conditions, loops, with and include, and intermediate values are never passed to a formatter. "
  "A formatter named anywhere else than last in an emitted expression, or with arguments, is a render error; an error returned by a formatter becomes a format error carrying its message.",
  ["programs", "configurations"], "every template, formatter and filter set and default formatter",
  "tests check one named formatter and one default formatter on one expression; that no path bypasses or doubles the (escaping) formatter must hold for every template.",
  ["src/render/core.rs", "src/compile/mod.rs", "src/fmt.rs", "src/lib.rs"],
  [("emission", "src/render/core.rs Emit / EmitWith / EmitRaw"), ("last function", "src/compile/mod.rs pop_emit_expr")],
  "expression register, function table", "recorded formatter calls and rendered text")

p("F04", "The default formatter prints every scalar canonically and rejects lists and maps",
  "With the default formatter none prints as nothing, booleans as true/false, integers in decimal, floats as Rust's Display does (shortest round-trip digits, no exponent), and strings verbatim without any escaping. "
  "Lists and maps are a format error. "
  "The text is the same whether rendered to a string or to a writer.",
  ["inputs"], "every value",
  "tests format a few values; extremes of integers, special floats, and strings with any characters are not covered.",
  ["src/fmt.rs", "src/render/core.rs"],
  [("default", "src/fmt.rs default")],
  "none", "rendered text")

p("W01", "Writers receive exactly the rendered text, and the first I/O failure is reported",
  "Rendering to a writer delivers byte for byte the UTF-8 text that rendering to a string returns, also through short and interrupted writes. "
  "If the writer fails, the render stops there: the bytes accepted so far are a prefix of that text, nothing is written after the failure, and the result is an I/O error whose source is that failure. "
  "If rendering itself fails, exactly the output preceding the failure was written and the render's error is returned.",
  ["fault_sequences", "inputs"], "every template, every failure point and kind, every pattern of short and interrupted writes",
  "one test fails at one fixed point; the failure point must be quantified over every byte and call.",
  ["src/fmt.rs", "src/render/mod.rs", "src/render/core.rs"],
  [("error stashing", "src/fmt.rs Writer"), ("precedence", "src/render/mod.rs to_writer")],
  "bytes accepted, stored I/O error", "instrumented writer and returned error")

p("E01", "The engine's registries behave as maps through any history of operations",
  "After any sequence of adding, replacing and removing templates, filters and formatters and of changing settings, each lookup and render uses exactly the most recently added live entry of that name, and others are untouched. "
  "Filters and formatters share one namespace; adding returns the kind of the entry it replaced and removing the kind (or presence) of what it removed. "
  "Adding a template that does not compile reports the error and leaves the registry exactly as it was.",
  ["histories"], "every sequence of registry operations interleaved with renders",
  "tests perform at most three operations in a row; replacement after failure, cross-kind replacement and removal in between renders need arbitrary histories.",
  ["src/lib.rs"],
  [("templates", "src/lib.rs add_template / remove_template / get_template"), ("functions", "src/lib.rs add_filter / add_formatter / remove_function")],
  "function map, template map, settings", "return values of operations, and renders after each")

p("E02", "Rendering is pure: repeatable, side-effect free and safe to run concurrently",
  "Rendering does not change the engine, the template or the context: repeating a render, after any other renders or failed renders, gives the same result. "
  "Renders running concurrently on a shared engine and shared templates give the same results as running alone. "
  "A compiled template gives the same result as the same source registered in the engine.",
  ["schedules", "histories"], "every interleaving of renders, including failing ones, on one engine",
  "no test renders twice on the same template object with failures in between, or from several threads.",
  ["src/lib.rs", "src/render/mod.rs", "src/render/core.rs"],
  [("shared engine", "src/lib.rs Engine"), ("per-render state", "src/render/mod.rs RendererInner")],
  "engine contents versus per-render state", "results of repeated and concurrent renders")

p("V01", "All ways of supplying the context render identically",
  "Rendering with a serializable context, with the equivalent value, or with a value function that resolves paths in that value gives the same output, for compiled and registered templates. "
  "A value function is consulted only for names not bound in the template, once per evaluated path, with the complete path as written (keys, indices and operators); an error it returns is a render error with its message.",
  ["programs", "inputs"], "every template and context",
  "tests exercise the three sources on separate tiny templates; equivalence over arbitrary templates is not tested.",
  ["src/render/mod.rs", "src/render/stack.rs", "src/lib.rs"],
  [("globals", "src/render/mod.rs Globals"), ("value function", "src/render/stack.rs ValueFn")],
  "bottom of the scope stack", "results per context source and recorded value function calls")

p("V02", "Serializable data is converted to values structurally and without loss",
  "Converting serializable data to a value maps every scalar, sequence, tuple, map, struct, option and enum variant to its canonical value: integers exactly, unit and none to none, options transparently, enum variants externally tagged. "
  "Map keys that are strings, characters, integers or unit variants become strings, later duplicates winning; other keys, and integers that do not fit a 64-bit signed integer, are a serialize error. "
  "Converting a value is the identity.",
  ["inputs"], "every tree of the serde data model",
  "tests convert one example per type; nesting, key kinds and boundary integers are not combined.",
  ["src/value/ser/mod.rs", "src/value/ser/map.rs", "src/value/ser/variants.rs", "src/value/ser/list.rs"],
  [("serializer", "src/value/ser/mod.rs"), ("keys", "src/value/ser/map.rs"), ("variants", "src/value/ser/variants.rs")],
  "partial map key", "value or error returned by to_value, and contexts given to render")

p("V03", "Values built from Rust data equal the data, whatever the conversion used",
  "Every conversion from Rust data into a value (unit, booleans, integers, floats, strings, options, vectors, arrays, ordered and hash maps, arrays and iterators of pairs or items, and the value macro) yields the value with exactly that content. "
  "In maps the last of duplicate keys wins, and two values are equal exactly when they have the same kind and content. "
  "Values that are equal render identically.",
  ["inputs"], "every supported source type and every content",
  "tests build a few values; boundary integers, nested and duplicate content are not covered.",
  ["src/value/from.rs", "src/value/mod.rs", "src/macros.rs"],
  [("From impls", "src/value/from.rs"), ("macro", "src/macros.rs")],
  "none", "resulting values")

p("X01", "Errors keep the kind, message, cause and template of what failed",
  "Each failure is reported with the kind of its origin (syntax, serialize, render, filter, format or io), whatever construct it occurred in. "
  "Messages supplied by filters, formatters, value functions and template functions are preserved verbatim, I/O errors are available as source, and the error names the registered template in whose source the failure occurred, or is anonymous for a compiled one. "
  "No partial string is returned with an error and no error is swallowed.",
  ["programs", "fault_sequences"], "every failure origin in every construct, at any include depth",
  "tests check one failure per kind at the top level; attribution through includes, loops and writers is not enumerated.",
  ["src/error.rs", "src/render/core.rs", "src/render/mod.rs", "src/filters/mod.rs", "src/fmt.rs"],
  [("error constructors", "src/error.rs"), ("attribution", "src/render/core.rs render"), ("precedence", "src/render/mod.rs to_writer")],
  "active template stack", "Display, alternate Display and source() of returned errors")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
