#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here in readable form)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Any template, flags, partials and data are processed safely and terminate",
  "Preprocessing, tokenizing, parsing, compiling, printing, serializing and rendering any template text with any compile flags, partials and data either produces a result or reports an error through the context; it never reads or writes outside live memory, aborts the process, exhausts the native stack, or runs without end. Deep nesting and self-including partials end in a reported error rather than a crash, and destroying the context afterwards releases everything that was allocated.",
  ["inputs", "programs", "configurations"],
  "every byte string as a template (including embedded control characters, truncated and deeply nested constructs), every combination of the public compile flags, every partial set including cyclic ones, every data tree",
  "The suite feeds a fixed set of short well-formed templates; memory errors in this code depend on lengths, nesting depth, operand shapes and malformed syntax that no listed test contains.",
  ["src/handlebars.l", "src/handlebars.y", "src/handlebars_parser.c", "src/handlebars_whitespace.c", "src/handlebars_compiler.c", "src/handlebars_opcode_serializer.c", "src/handlebars_vm.c", "src/handlebars_ast_printer.c", "src/handlebars_opcode_printer.c", "src/handlebars_module_printer.c", "src/handlebars_token.c", "src/handlebars_delimiters.c"],
  [("error jumps instead of aborts", "src/handlebars.c handlebars_throw"), ("bounded VM and compiler stacks", "src/handlebars_vm.h, src/handlebars_compiler.h"), ("talloc ownership under the context", "src/handlebars_memory.c")],
  ["process exit / sanitizer report", "error number on the context", "bytes still allocated after the context is destroyed"])

p("C02", "Expressions print the value their path designates",
  "A value expression prints exactly the string form of the value that its path designates: plain and nested names, bracketed segments and numeric array indexes, `this` and `.`-scoped names, `../` parents, block parameters (innermost binding of a name first, from any depth of nesting), `@` data variables and `@root`, and literals. A path any step of which is absent designates nothing and prints as an empty string, never the value of a shorter path. Arrays print their elements joined by commas, objects print as empty, and booleans and numbers print in decimal.",
  ["inputs", "programs"],
  "every well-formed template of mustaches inside nested blocks, for every data tree of objects, arrays, strings, booleans, integers, floats and nulls",
  "Tests render a handful of two-level paths; the resolution order, the depth bookkeeping and the treatment of missing steps depend on the combination of nesting, block kinds and data shape.",
  ["src/handlebars_vm.c", "src/handlebars_compiler.c", "src/handlebars_ast_helpers.c", "src/handlebars_value.c", "src/handlebars_string.c"],
  [("path opcodes", "src/handlebars_vm.c lookup_on_context/lookup_data/lookup_block_param"), ("path classification and depth", "src/handlebars_compiler.c"), ("context and block-param stacks", "src/handlebars_vm.c handlebars_vm_execute_program_ex")],
  ["rendered output"])

p("C03", "Block constructs choose the right branch, context and iteration variables",
  "if/unless (including includeZero), with, each, plain and inverted sections, and else / else-if chains run exactly the branch that the truthiness, emptiness or type of their argument calls for, with the context, block parameters and @index/@key/@first/@last that branch should see, once per element and in element order. After a block ends, the enclosing context, data variables and block parameters are those in force before it. Arguments that are callable are evaluated first and their result is used.",
  ["inputs", "programs"],
  "every nesting of block constructs up to the engine's limits, over every data tree, with null, false, zero, the empty string, \"0\", and empty arrays and objects as the falsy values",
  "Tests exercise each block alone with one or two data shapes; wrong branch selection or state leaking out of a block needs a particular nesting, element count or value kind.",
  ["src/handlebars_helpers.c", "src/handlebars_vm.c", "src/handlebars_compiler.c", "src/handlebars_value.c"],
  [("builtin helpers", "src/handlebars_helpers.c"), ("stack save/restore around programs", "src/handlebars_vm.c"), ("truthiness", "src/handlebars_value.c handlebars_value_get_boolval / handlebars_value_is_empty")],
  ["rendered output"])

p("C04", "Partials render the named template with the right context, block and indent",
  "A partial call renders the template registered under its (static, numeric, quoted or computed) name against the context it is given, with its hash arguments overlaid and no other change visible to the caller. A partial block supplies its body as the fallback when the partial is missing and as @partial-block inside it; a missing partial without a body is an error naming it, or prints nothing in compat mode. A partial alone on a line indents every line it produces by that line's leading whitespace unless indentation is disabled, and an error inside a partial is reported to the caller.",
  ["inputs", "programs", "configurations"],
  "every set of partials (nested, repeated, with partial blocks), every calling form, every data tree, with and without compat, prevent-indent and explicit-context flags",
  "Partials are covered by a handful of fixed examples; context merging, indentation and partial-block nesting interact in ways that need composed templates.",
  ["src/handlebars_vm.c", "src/handlebars_compiler.c", "src/handlebars_whitespace.c", "src/handlebars_string.c"],
  [("partial invocation", "src/handlebars_vm.c invoke_partial, execute_template"), ("indentation", "src/handlebars_string.c handlebars_string_indent"), ("partial compile", "src/handlebars_compiler.c handlebars_compiler_accept_partial")],
  ["rendered output", "reported error"])

p("C05", "Literal text and whitespace control are reproduced exactly",
  "Text outside mustaches is copied byte for byte to the output, except that `~` strips all adjacent whitespace on its side up to the neighbouring tag, a block, comment or partial tag standing alone on its line removes that line's surrounding whitespace and newline (unless standalone handling is disabled), and backslash-escaped mustaches are emitted literally. Comments produce nothing and the content of raw blocks is delivered verbatim.",
  ["inputs", "programs", "configurations"],
  "every arrangement of text, newlines (LF and CRLF), tabs and tags of every kind, with strip markers on any side, with standalone handling on and off",
  "Tests check a few dozen hand-written lines; the stripping rules combine neighbouring nodes, nesting, first/last position and strip flags.",
  ["src/handlebars_whitespace.c", "src/handlebars.l", "src/handlebars_scanners.re", "src/handlebars_ast_helpers.c", "src/handlebars_string.c"],
  [("whitespace pass", "src/handlebars_whitespace.c"), ("lexer states for text and escapes", "src/handlebars.l"), ("line scanners", "src/handlebars_scanners.re")],
  ["rendered output"])

p("C06", "Values are HTML-escaped exactly once, exactly when they should be",
  "Output of `{{expr}}` never contains a raw `&`, `<`, `>`, double quote, single quote or backtick taken from a value: each is replaced by its entity, everything else is unchanged, and a value marked safe is printed as is. `{{{expr}}}`, `{{&expr}}`, block, partial and no-escape output is not escaped, and nothing is escaped twice, in nested arrays, helper results and captured sub-programs alike.",
  ["inputs", "programs", "configurations"],
  "every string value (all byte values, every length), safe-marked or not, reached through paths, arrays, helpers, sub-expressions, partials and nested blocks, with and without the no-escape flag",
  "Tests cover short ASCII strings in direct mustaches; buffer sizing, run splitting and the escape decision per output route are only visible with varied strings and routes.",
  ["src/handlebars_string.c", "src/handlebars_value.c", "src/handlebars_vm.c", "src/handlebars_compiler.c"],
  [("escaper", "src/handlebars_string.c handlebars_string_htmlspecialchars*"), ("append routing", "src/handlebars_value.c handlebars_value_expression_append"), ("append vs append_escaped choice", "src/handlebars_compiler.c")],
  ["rendered output"])

p("C07", "Helpers are called with the arguments, hash, name and scope written",
  "A helper expression calls the registered helper once per evaluation with exactly the positional arguments, hash entries, name and current context that the template writes, arguments and sub-expressions being evaluated before it, and its result replaces the expression. A registered helper takes precedence over a data field of the same name and over a builtin of that name; a callable data value is called when no helper matches; an unknown name with arguments is an error naming it. Block helpers can run their main or inverse program any number of times with any context, data variables and block parameters, and get that program's output.",
  ["inputs", "programs"],
  "every helper call form (plain, nested sub-expressions, block, inverse block, scoped or `this.`-qualified names, literal names), every argument kind and count, every helper set",
  "Tests use fixed helpers with few arguments; argument order, hash pairing and option plumbing depend on nesting depth and counts.",
  ["src/handlebars_vm.c", "src/handlebars_compiler.c", "src/handlebars_helpers.c", "src/handlebars_value.c"],
  [("invoke opcodes and option setup", "src/handlebars_vm.c setup_options, invoke_helper, invoke_ambiguous, invoke_known_helper"), ("classification", "src/handlebars_compiler.c")],
  ["arguments recorded by the helper", "rendered output", "reported error"])

p("C08", "Compile flags change exactly the behaviour they name",
  "With strict mode a missing field is an error naming it, with assume-objects a missing parent object is, and without them neither is; known-helpers-only rejects calls to unknown helpers at compile time; compat mode finds a name in the nearest enclosing context that has it; no-escape, ignore-standalone, prevent-indent and explicit-partial-context change only escaping, standalone stripping, partial indentation and the default partial context. Apart from that named difference, output is the same with the flag on as with it off.",
  ["inputs", "programs", "configurations"],
  "every template and data tree under each of these flags, alone and combined",
  "Each flag has at most a couple of dedicated tests; the promise that nothing else changes is a statement about all other templates.",
  ["src/handlebars_compiler.c", "src/handlebars_vm.c", "src/handlebars_whitespace.c", "src/handlebars_compiler.h"],
  [("flag tests in compiler", "src/handlebars_compiler.c"), ("strict / compat lookups", "src/handlebars_vm.c lookup_on_context, depthed_lookup"), ("standalone switch", "src/handlebars_whitespace.c")],
  ["rendered output", "reported error"])

p("C09", "Printing a parsed template back to source preserves its meaning",
  "Converting a parsed template back to template text yields text that parses, to a tree with the same structure and rendering, and converting that once more yields the same text.",
  ["inputs", "programs"],
  "every well-formed template",
  "Only a handful of lambdas in the mustache suites touch the converter; each node kind, strip marker, escape and literal form needs its own round trip.",
  ["src/handlebars_ast.c", "src/handlebars_ast_helpers.c", "src/handlebars_compiler.c"],
  [("AST to string", "src/handlebars_ast.c handlebars_ast_to_string")],
  ["text of the re-printed template", "rendered output of both"])

p("C10", "A compiled module is self-contained, relocatable and tamper-evident",
  "A serialized module, copied byte for byte to another address and adjusted for it, renders exactly as the original with the original memory gone, and re-normalizing it to the null base gives identical bytes wherever it lived. Serializing the same program twice (at the same time stamp, normalized to the same base) gives the same bytes and hash, and any changed byte of a hashed module's contents makes verification fail while an unchanged module verifies.",
  ["inputs", "programs", "histories"],
  "every compiled template, every target address, every sequence of relocations, every single changed byte",
  "One test serializes one program; pointer fix-up has to be right for every opcode and operand kind in the module.",
  ["src/handlebars_opcode_serializer.c", "src/handlebars_opcode_serializer.h", "src/handlebars_cache_mmap.c", "src/handlebars_cache_lmdb.c"],
  [("serialize / patch / normalize pointers", "src/handlebars_opcode_serializer.c"), ("hash", "src/handlebars_opcode_serializer.c handlebars_module_generate_hash / verify")],
  ["rendered output of the relocated copy", "module bytes", "verify result"])

p("C11", "A template cache never changes what is rendered",
  "Rendering with any template cache attached, cold, warm, shared between several machines with different flags, after expiry, eviction or reset, gives the same output and the same errors as rendering with none.",
  ["inputs", "programs", "histories", "configurations"],
  "every sequence of renders of templates with partials (including the same partial under different indents and delimiters) through one cache of any kind, interleaved with garbage collection and reset",
  "Tests render the same template a few times through one cache; wrong keys or stale entries only show across renders that differ in flags, indentation or partial text.",
  ["src/handlebars_vm.c", "src/handlebars_cache.c", "src/handlebars_cache_simple.c", "src/handlebars_cache_mmap.c", "src/handlebars_cache_lmdb.c"],
  [("cache use", "src/handlebars_vm.c execute_template"), ("back ends", "src/handlebars_cache_*.c")],
  ["rendered output"])

p("C12", "Cache stores keep what was added, within their limits",
  "After adding a compiled template, looking it up by equal source text returns a module that renders as the added one until it expires, is evicted by a limit, is garbage-collected or the cache is reset, and a text never added is never found, nor is an entry of a cache file whose module was damaged there. Garbage collection removes exactly the entries that are too old or exceed the configured entry or size limits (oldest first), and reset removes all. The statistics agree with the history of hits, misses and stored entries.",
  ["histories", "inputs", "configurations"],
  "every sequence of add, find, release, garbage-collect, age and reset, over colliding, equal-length and large keys, for each back end and limit setting",
  "Unit tests add one or two entries; limits, replacement and accounting are properties of histories.",
  ["src/handlebars_cache.c", "src/handlebars_cache.h", "src/handlebars_cache_simple.c", "src/handlebars_cache_mmap.c", "src/handlebars_cache_lmdb.c"],
  [("back ends", "src/handlebars_cache_*.c")],
  ["find results", "cache statistics"])

p("C13", "Maps behave as insertion-ordered dictionaries",
  "For every history of adds, updates, removals, lookups, copies, rehashes and sorts, a map contains exactly the last value stored under each key, enumerates its keys in insertion order (an update keeps a key's place), reports the right count and index of entries, and sorting reorders it by the comparison function. Copying gives an independent map, and adding a key that is present is an error that leaves the map unchanged.",
  ["histories", "inputs"],
  "every sequence of map operations over every set of keys, including colliding and empty keys and key sets crossing every growth and compaction threshold",
  "Tests insert a few keys; tombstones, growth and compaction only interact over long mixed histories.",
  ["src/handlebars_map.c", "src/handlebars_map.h"],
  [("open-addressed table plus ordered vector", "src/handlebars_map.c")],
  ["map contents through the public accessors"])

p("C14", "Values, arrays and stacks keep value semantics under sharing",
  "A value handle observes only operations made through it or on a container it is a part of: changing one holder of a shared array, map or string never changes another holder, every stored value stays readable for as long as a holder exists, and overwriting or destroying holders in any order releases each object once. Arrays and stacks behave as sequences under push, pop, set and get, growing as needed, and comparison and conversion of values agree with their contents.",
  ["histories", "inputs"],
  "every sequence of value, array, map and stack operations over a set of handles that share structure",
  "Tests exercise one operation on freshly made values; reference counts and separation go wrong only under particular sharing histories.",
  ["src/handlebars_value.c", "src/handlebars_stack.c", "src/handlebars_rc.h", "src/handlebars_map.c", "src/handlebars_string.c", "src/handlebars_closure.c", "src/handlebars_ptr.c", "src/handlebars_user.c"],
  [("reference counting and separation", "src/handlebars_rc.h, src/handlebars_stack.c, src/handlebars_map.c"), ("value setters", "src/handlebars_value.c")],
  ["contents seen through every handle", "sanitizer report"])

p("C15", "String operations agree with their mathematical definition",
  "Each string operation (construct, append, compare, copy, search, replace, trim, indent, slash escaping and unescaping, HTML escaping, implode, reduce, truncate) returns the bytes its definition gives, keeps length and terminator consistent, treats NUL as an ordinary byte where a length is given, and leaves its other holders' contents untouched. Hash and equality agree with the byte content after any sequence of operations.",
  ["inputs", "histories"],
  "every byte string, every argument including empty and overlapping ones, every chain of operations",
  "Tests check one or two samples per function; capacity growth, in-place edits of shared strings and cached hashes depend on lengths and order.",
  ["src/handlebars_string.c", "src/handlebars_string.h"],
  [("string buffer with cached hash", "src/handlebars_string.c")],
  ["bytes, length, hash and equality of results"])

p("C16", "Running out of memory anywhere is reported and leaves nothing broken",
  "If any single allocation, or every allocation from some point on, fails while a template is parsed, compiled, serialized or rendered, the call reports an out-of-memory error through the context or completes with the correct result; it never crashes, corrupts memory or returns wrong output, and the objects can still be destroyed, releasing everything.",
  ["fault_sequences", "inputs"],
  "every template pipeline and every index of the failing allocation",
  "A few tests fail the next allocation in one constructor; the failing point has to be swept across whole pipelines.",
  ["src/handlebars_memory.c", "src/handlebars.c", "src/handlebars_parser.c", "src/handlebars_compiler.c", "src/handlebars_vm.c", "src/handlebars_string.c", "src/handlebars_map.c", "src/handlebars_stack.c"],
  [("allocation failure injection point", "src/handlebars_memory.c handlebars_memory_fail*"), ("checks on every allocation", "HANDLEBARS_MEMCHECK")],
  ["error number", "sanitizer report", "rendered output"])

p("C17", "Rendering is repeatable and leaves nothing behind",
  "Rendering a module with the same data, partials and helpers gives the same output every time, whatever was rendered before on the same machine, including renders that ended in an error. Rendering never alters the caller's data, partials, helpers, module or data variables, and a machine that reported an error renders the next template as a fresh one would.",
  ["histories", "inputs", "programs"],
  "every sequence of renders (successful and failing, nested through helpers) on one or more machines sharing data",
  "Tests render once per machine; leaks between renders need a history with the right predecessor.",
  ["src/handlebars_vm.c", "src/handlebars_helpers.c", "src/handlebars_value.c", "src/handlebars_map.c"],
  [("state save and restore", "src/handlebars_vm.c handlebars_vm_execute_ex")],
  ["rendered output across the history", "data contents before and after"])

p("C18", "JSON and YAML data render as the equivalent native values",
  "A JSON or YAML document read into a value has the same structure, types, key order, sizes and rendering as the native value it denotes, whether accessed lazily through the wrapper or converted, and whether reached by lookup, index or iteration. Truncated or otherwise unparsable documents are reported as errors.",
  ["inputs", "programs"],
  "every JSON document and every YAML document of the supported scalar, sequence and mapping forms, under every template",
  "Tests read two or three small documents; nulls, empty containers, big numbers and nested iteration differ between wrapper and native paths.",
  ["src/handlebars_json.c", "src/handlebars_yaml.c", "src/handlebars_value.c", "src/handlebars_value_handlers.c"],
  [("wrapper handlers", "src/handlebars_json.c"), ("YAML node walk", "src/handlebars_yaml.c"), ("conversion", "src/handlebars_value.c handlebars_value_convert_ex")],
  ["value accessors", "rendered output", "reported error"])

p("C19", "Changing delimiters changes only how tags are written",
  "In compat mode a template written with set-delimiter tags renders exactly as the same template written with the default delimiters, for any pair of delimiters without whitespace, equals signs, quotes or backslashes, any number of changes and any position of the change tags; text between tags is unaffected, and text that merely resembles default tags is output literally.",
  ["inputs", "programs"],
  "every template rewritten under every sequence of delimiter pairs, including pairs of one or many characters and of overlapping characters, whose text and literals do not contain the delimiters in force",
  "A dozen mustache-spec examples use one or two pairs; rewriting must be exact at every boundary.",
  ["src/handlebars_delimiters.c", "src/handlebars_helpers.c", "src/handlebars_vm.c"],
  [("delimiter preprocessing", "src/handlebars_delimiters.c")],
  ["preprocessed text", "rendered output"])

p("C20", "Partials loaded from a directory equal partials given in memory",
  "Rendering with partials loaded from a directory (base path, partial name and extension joined) gives the same output as rendering with the same texts held in memory, for repeated and nested use, subdirectories and multi-line files. A name with no file behaves as a missing partial, and an empty or unreadable file is an error.",
  ["inputs", "programs", "configurations"],
  "every set of partial files with every content, base path and extension, every template using them",
  "Tests load one file once; caching of loaded entries, iteration and odd contents are not touched.",
  ["src/handlebars_partial_loader.c", "bin/handlebarsc.c"],
  [("loader value handlers", "src/handlebars_partial_loader.c")],
  ["rendered output"])

p("C21", "The command-line tool does what the library does",
  "For any template, data file (JSON or YAML), flags and partial directory, the command-line tool prints exactly what the library renders for them (plus a final newline unless disabled) and exits 0, or prints the error on standard error, nothing on standard output, and exits non-zero (an empty or missing file is an error too); reading from a file or from standard input, repeating the run, converting input or not, and the memory-pool size make no difference. Its token, tree, opcode and module listings are those the library prints for the same template and flags.",
  ["inputs", "programs", "configurations"],
  "every template, data document and option combination",
  "A couple of fixed command lines are tested; option handling and file reading combine freely.",
  ["bin/handlebarsc.c"],
  [("option parsing and modes", "bin/handlebarsc.c")],
  ["standard output", "standard error", "exit status"])

p("C22", "Malformed templates are rejected at the right place; well-formed ones never are",
  "Every template of the grammar is accepted, and one with an unclosed or mismatched block, a stray closing or else tag, an unterminated tag or string, or a malformed expression is rejected with a parse error rather than rendered. The error names the line on which the offending tag stands (for something missing at the end, the last line; for a mismatched block, the lines of the opening and of the closing tag), and a mismatched block error names both the opening and the closing name.",
  ["inputs", "programs"],
  "every well-formed template and every single-point corruption of one, at every line",
  "Tests hold a few dozen malformed snippets mostly on one line; acceptance of everything else and the location bookkeeping across lines are not sampled.",
  ["src/handlebars.l", "src/handlebars.y", "src/handlebars_ast_helpers.c", "src/handlebars_parser.c", "src/handlebars_parser_private.c"],
  [("grammar", "src/handlebars.y"), ("location tracking", "src/handlebars.l"), ("open/close check", "src/handlebars_ast_helpers.c")],
  ["error number, location and message"])

p("C23", "Independent contexts can be used from different threads",
  "Threads that each use their own context, parser, compiler, machine and values, concurrently and on any templates, get the results they would get alone, and so do threads sharing one cross-process template cache; no data race occurs on the library's own state.",
  ["schedules", "inputs", "programs"],
  "every interleaving of pipelines in several threads, with and without a shared memory-mapped cache",
  "The suite is single-threaded apart from none; hidden global or shared state is invisible to it.",
  ["src/handlebars.c", "src/handlebars_memory.c", "src/handlebars_parser.c", "src/handlebars_cache_mmap.c", "src/handlebars_vm.c"],
  [("no mutable globals in the pipeline", "src/"), ("lock in the mapped cache", "src/handlebars_cache_mmap.c")],
  ["per-thread output", "race detector report"])

p("C24", "Tree and token listings reflect the template's structure",
  "The tree listing of a parsed template shows every statement of the source in order, with its kind, path, parameters, hash, block parameters, literals and nesting as written and text after whitespace control, and nothing else. The token listing, read in order, accounts for every character of the template except whitespace inside tags.",
  ["inputs", "programs"],
  "every well-formed template",
  "Tests compare a fixed set of listings; each construct in each position needs to appear in the tree exactly once.",
  ["src/handlebars.l", "src/handlebars.y", "src/handlebars_ast_helpers.c", "src/handlebars_ast_printer.c", "src/handlebars_token.c", "src/handlebars_ast_list.c"],
  [("grammar actions", "src/handlebars.y"), ("printer", "src/handlebars_ast_printer.c"), ("tokenizer", "src/handlebars.l")],
  ["printed tree", "printed tokens"])

p("C25", "Mustache-style lambdas receive the section source and re-render their result",
  "With mustache-style lambdas enabled, a callable designated by a plain name and used as a section without arguments is given the section's source text (which renders as the section itself would) and its returned text is rendered as a template in the current context under the delimiters in force, unescaped; one used as a variable has its returned text rendered with the default delimiters and then escaped according to the tag. An inverted section on a callable prints nothing.",
  ["inputs", "programs"],
  "every section body, every returned template, every position and nesting",
  "About ten mustache-spec cases exist, with fixed bodies.",
  ["src/handlebars_vm.c", "src/handlebars_compiler.c", "src/handlebars_ast.c", "src/handlebars_delimiters.c"],
  [("lambda closure", "src/handlebars_vm.c invoke_mustache_style_lambda_closure"), ("section source", "src/handlebars_ast.c handlebars_ast_to_string")],
  ["text given to the lambda", "rendered output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
