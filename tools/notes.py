# technique and level note of each check
BASE = ' Sampling, not proof: covers the generated domain described in DESIGN.md; memory errors are caught by address and bounds sanitizers. Trusts the reference written for this check.'
NOTES['C13'] = ('model-based stateful property testing against an ordered association list', 'Random operation histories over up to four maps, contents compared after the operations.' + BASE)
NOTES['C02'] = ('differential property testing of generated templates and data against an independent reference interpreter', 'Path expressions of every kind.' + BASE)
NOTES['C03'] = ('differential property testing of generated templates and data against an independent reference interpreter', 'Nested blocks of every kind, both branches.' + BASE)
NOTES['C04'] = ('differential property testing of generated templates and data against an independent reference interpreter', 'One to four partials, nested and with blocks.' + BASE)
NOTES['C05'] = ('differential property testing of generated templates and data against an independent reference interpreter', 'Templates dense in whitespace control.' + BASE)
NOTES['C06'] = ('differential property testing of generated templates and data against an independent reference interpreter', 'Values dense in special characters through every tag kind.' + BASE)
NOTES['C07'] = ('differential property testing of generated templates and data against an independent reference interpreter, including the sequence of helper calls', 'Eleven test helpers covering arguments, hash, scope, programs and errors.' + BASE)
NOTES['C08'] = ('differential property testing of generated templates and data against an independent reference interpreter, with one to eight compile flags', 'String-params, track-ids and alternate-decorators have no effect on the machine and are not combined here.' + BASE)
NOTES['C24'] = ('property testing of listings: generated trees against the tree listing, token list matched against the template text', 'Templates of every construct.' + BASE)
NOTES['C17'] = ('stateful differential property testing: histories of renders on shared machines against fresh ones', 'Histories of up to seven renders, errors included; snapshots of all inputs.' + BASE)
NOTES['C11'] = ('stateful differential property testing: renders with a shared cache against renders without', 'All three caches, two contexts, a controlled clock.' + BASE)
NOTES['C12'] = ('model-based stateful property testing against a model of the cache contents', 'All three caches with a controlled clock; the placement hash of the shared memory cache is used to predict which texts collide.' + BASE)
NOTES['C09'] = ('round-trip property testing: parse, convert to source, parse again; listings, texts and renderings compared', 'Structured templates and free compositions of odd spellings, with and without whitespace control and changed delimiters.' + BASE)
NOTES['C25'] = ('differential property testing of generated templates and lambdas against an independent reference interpreter', 'Lambdas as variables, sections and inverted sections, nested, in partials and under changed delimiters.' + BASE)
NOTES['C19'] = ('differential and metamorphic property testing: changed delimiters against the reference interpreter and against default delimiters', 'Changes at any depth, usual and random delimiters, literal braces in text.' + BASE)
NOTES['C20'] = ('differential property testing: partials from a scratch directory against the same texts in memory', 'Names with subdirectories and odd characters, extensions, base paths, decoy and unusable files, repeated renders; the texts in memory are themselves compared with the reference interpreter.' + BASE)
NOTES['C21'] = ('differential property testing of generated command lines against the library called in the same process', 'The tool is built from bin/handlebarsc.c twice, plain and address-sanitized. Hash, address and time of module listings are masked.' + BASE)
NOTES['C14'] = ('model-based stateful property testing against a copy-on-write model', 'Six holders and three stacks, all operations of values, arrays and stacks, memory compared with the start at the end; release is not compared after more than 50 holders of one value.' + BASE)
NOTES['C15'] = ('model-based stateful property testing against byte sequences', 'All operations of handlebars_string.h but vasprintf with a part of the string itself, and replacing in place by a part of itself.' + BASE)
NOTES['C10'] = ('differential and fault-injecting property testing: copies against originals, bytes against bytes, every changed byte against verification', 'The clock is fixed per case, memory is filled with different garbage for each serialization, former homes are destroyed; the eight bytes of the magic header are not hashed by design.' + BASE)
NOTES['C18'] = ('round-trip and differential property testing: generated data written as JSON or YAML text against the same data as native values and the reference interpreter', 'Keys with NUL, integers beyond 64 bits, more than 25 levels, YAML tags, merge keys and multi-document streams are left out.' + BASE)
NOTES['C22'] = ('differential property testing: composed and damaged templates against an independent scanner and recognizer of the language', 'Templates whose strings hold escapes other than of quotes are left out.' + BASE)
NOTES['C16'] = ('fault-injecting property testing: one allocation or all from one on fail at random points of generated pipelines, against the undisturbed run', 'Parsing, compiling, serialization, rendering, caches, JSON data; live blocks counted at the end. Loading JSON or YAML text under failing allocations is left out (memory of json-c and libyaml).' + BASE)
NOTES['C01'] = ('property-based fuzzing of every stage with generated, composed, damaged and repeated structures under address and bounds sanitizers', 'Every stage gives a result or a reported error within 30 s of CPU time, the sanitizers are silent, and no block remains after the context is destroyed. Lists of more than 2000 statements and printing of more than 8 kB are left out (their cost grows with the square of the length).' + BASE)
NOTES['C23'] = ('concurrency property testing: random concurrent pipelines against the same pipelines run alone, under the thread sanitizer', 'Two to five threads or processes, with and without one shared memory cache; interleavings are those the scheduler gives, and data races are reported by happens-before analysis. The half second waits of the shared cache are shortened.' + BASE)
