TREE = 'Tests run a few fixed documents and one short sequence of operations; the property quantifies over every tree shape, position and handle.'
TEXT = 'The suite feeds a fixed corpus of texts; the property quantifies over all byte strings of every length.'
SOUND = ('Sound for every input and length under the stated assumptions (sizes below 2^31, allocation succeeds, values passed in were made by the library and the tree is well formed); '
         'trusts clang -O0/-mem2reg lowering, the analyser in zz/, and the summaries of the arena allocator and string builder that C06 verifies.')

p('C01', 'Parsing accepts exactly the JSON texts',
  'Parsing succeeds if and only if the text (up to its terminating zero byte or the given length) is one JSON value of RFC 8259 surrounded by optional white space, whatever its length and nesting depth. '
  'Strings must have no raw control byte and only valid escapes, an escaped UTF-16 surrogate must come as a high-low pair, and bytes of 0x80 and above are accepted inside strings without validation.',
  ['inputs'], 'every byte string, every length and nesting depth, parsed into a fresh or an existing value', TEXT,
  [('text scanner and container state machine', 'zzzjson.h: the parse functions and their scanners for strings, numbers and literals')],
  tech=AI, note=SOUND)
p('C02', 'A parsed tree mirrors its text',
  'After a successful parse the value has the type of the text, every array and object has exactly the elements of the text in order with the right element count and parent, every member has exactly its key text, '
  'and every string and number refers to exactly its characters (strings without quotes, escapes kept as written). A value that already had a key or a place in a container keeps it.',
  ['inputs'], 'every valid JSON text, into a fresh or an existing value', TEXT,
  [('tree construction', 'zzzjson.h: the parse functions')], tech=AI, note=SOUND)
p('C03', 'Stringify writes exactly the tree',
  'Stringify of any value returns a zero-terminated compact JSON text of exactly that value: the elements in order, separated by commas, members as quoted key, colon and value, brackets matching the container, strings quoted, '
  'scalars as their stored text, with no other byte. It starts at the value itself (never its own key, siblings or parent), and gives an empty text for a value without content.',
  ['inputs', 'histories'], 'every well-formed tree, every node of it as the start', TREE,
  [('serialiser', 'zzzjson.h: the stringify function')], tech=AI, note=SOUND)
p('C04', 'No operation reads caller text beyond its end',
  'No operation reads a byte after the terminating zero of a caller\'s text, or at or after the given length for operations that take a length, whatever the bytes are (truncated literals, escapes, numbers and keys included). '
  'Stored keys, strings and numbers are likewise never read beyond their stored length.',
  ['inputs'], 'every text and length passed to any public operation', TEXT,
  [('scanners', 'zzzjson.h: parse, setters, lookups, numeric getters')], tech=AI, note=SOUND)
p('C05', 'Writes stay inside the memory allocated for them',
  'Every write an operation makes lies inside memory allocated for it (its own node, value, text buffer or conversion buffer), for every text length, escape mix and number; nothing is written into caller texts, constants, '
  'or memory that was freed, and no uninitialised memory decides a result.',
  ['inputs', 'histories'], 'every public operation, input and tree', TEXT,
  [('buffers', 'zzzjson.h: every allocation site with its writes')], tech=AI, note=SOUND)
p('C06', 'Arena blocks are disjoint, large enough and released exactly once',
  'Every block obtained from an allocator is at least as large as requested, inside memory the allocator owns, and disjoint from every block handed out before; growing a text buffer keeps its content. '
  'Releasing an allocator frees every chunk it obtained exactly once, and nothing else frees them.',
  ['histories', 'inputs'], 'every sequence of allocations of any sizes, followed by release', 'Tests allocate small amounts in one order; chunk boundaries, growth factors and long histories are never reached.',
  [('arena and string builder', 'zzzjson.h: allocator, its constructor and destructor, string buffer append')], tech=AI,
  note='Sound for every allocation history by induction over operations (the arena invariant is assumed before and proved after each operation); assumes malloc succeeds, sizes do not overflow and the growth constants are as configured.')
p('C07', 'Numeric getters convert exactly the stored number',
  'Reading a number as double, int, long or long long converts exactly the stored digits, no more and no fewer, however long the number is and whatever bytes follow it in the source text, using the conversion of the requested type; '
  'it yields nothing for any value that is not a number.',
  ['inputs'], 'every number value of every length and every surrounding text', TEXT,
  [('conversion helpers', 'zzzjson.h: numeric getters')], tech=AI,
  note=SOUND + ' The C library conversion (atof, strtol, ...) itself is trusted.')
p('C08', 'No hidden shared mutable state',
  'No operation reads or writes mutable state shared between allocators: threads that use distinct allocators and values never interfere, and nothing survives the release of an allocator. '
  'The optional memory-counting mode is the only exception.',
  ['schedules', 'histories'], 'every interleaving of operations on distinct allocators, every configuration', 'The tests are single-threaded and use one allocator at a time.',
  [('global data', 'zzzjson.h, zzzjson.hpp: every global, static and thread-local object')], files=(H, HPP),
  tech='whole-module effect analysis over the LLVM IR (writable globals, stores and escapes to them)', note='Sound for all schedules over distinct allocators: no writable object with static storage is written or handed out for writing in any configuration.')
p('C09', 'Setters accept exactly valid string, key and number texts',
  'Setting a string, key or number from text succeeds if and only if the text is a valid JSON string content (as in parsing, without raw quotes) or JSON number, for zero-terminated and length-given variants, copying and non-copying alike; '
  'a key is additionally refused on an element of an array. Setting from a double succeeds exactly when its decimal text is a valid JSON number.',
  ['inputs'], 'every text and length, every value', TEXT,
  [('validators', 'zzzjson.h: string and number checks of the setters')], tech=AI, note=SOUND)
p('C10', 'A failed operation changes nothing',
  'When an operation reports failure (a parse, set, add, delete or move that returns false, or a lookup or getter that returns nothing), every value and tree that existed before is exactly as it was.',
  ['inputs', 'histories'], 'every public operation on every tree and every failing input', TREE,
  [('restore and early-return paths', 'zzzjson.h: parse, setters, container operations')], tech=AI, note=SOUND)
p('C11', 'Getters answer for the right type only, with exactly the stored data',
  'A typed getter answers only for a value of that type and otherwise returns nothing; string, number-text and key getters give exactly the stored characters and length (copying ones as a new zero-terminated copy), '
  'the boolean getter gives the stored truth value, the type getter the stored type, and key getters answer only when there is a key.',
  ['inputs', 'histories'], 'every value of every type, with or without content and key', TREE,
  [('getters', 'zzzjson.h: getters')], tech=AI, note=SOUND)
p('C12', 'Adding appends exactly one element at the end',
  'A successful add puts the element (or a full copy of it, for the copying form) after the last element, raises the count by one, and leaves all other elements, their order and links as they were; the non-copying form first detaches the element from its old container and empties the source handle. '
  'Adding fails unless the target is a container of that kind and, for objects, the element has a key; an element added to an array loses its key.',
  ['inputs', 'histories'], 'every tree and element position, including an element that already belongs to the target', TREE,
  [('append operations', 'zzzjson.h: array and object add')], tech=AI, note=SOUND)
p('C13', 'Removing detaches exactly the chosen element',
  'Deleting by index or key, or moving a value out, detaches exactly that element: its former neighbours are linked to each other, the container\'s first and last element and count are right, every other element is untouched, and the detached value keeps its content and key. '
  'Deleting fails when the index or key does not exist or the target is not such a container.',
  ['inputs', 'histories'], 'every tree and position (first, middle, last, only element)', TREE,
  [('unlink', 'zzzjson.h: move and delete')], tech=AI, note=SOUND)
p('C14', 'Copy and set are deep and independent',
  'Copying a value yields an equal tree (types, order, counts, keys, texts) made only of new memory owned by the copy\'s allocator, detached from any container; setting a value from another gives it that content with correct parent links while it keeps its own key and place in its container. '
  'The copying form leaves the source untouched and shares nothing with it.',
  ['inputs', 'histories'], 'every source and target tree, any nesting depth, any allocators', TREE,
  [('deep copy and set', 'zzzjson.h: copy, set')], tech=AI, note=SOUND)
p('C15', 'Copying operations do not keep caller memory; fast ones do not copy',
  'After a copying parse or setter returns, nothing in the tree refers to the caller\'s text, so the caller may change or free it; the fast variants refer to exactly the caller\'s characters without copying.',
  ['inputs', 'histories'], 'every text-taking operation', 'Tests keep their texts alive and unchanged for the whole run.',
  [('text retention', 'zzzjson.h: parse and setters')], tech=AI, note=SOUND)
p('C16', 'Unescaping decodes exactly',
  'The unescaping getters return, zero-terminated, the exact UTF-8 decoding of the stored string or key: each escape replaced by its character (surrogate pairs combined into one code point), all other bytes unchanged and in order.',
  ['inputs'], 'every stored string and key', TEXT,
  [('unescape', 'zzzjson.h: unescaping getters')], tech=AI, note=SOUND)
p('C17', 'Escaping encodes exactly',
  'The escaping setters store a JSON string whose characters decode back to exactly the given bytes: quote, backslash and every control byte are escaped, and every other byte is kept or escaped to an equivalent form. '
  'The zero-terminated and length-given variants agree, and escaping never makes the setter fail.',
  ['inputs'], 'every byte string', TEXT,
  [('escape table and escapers', 'zzzjson.h: escaping setters')], tech=AI, note=SOUND)
p('C18', 'Read-only operations do not modify values',
  'Getters, lookups, iteration, size, type, stringify and copy leave every existing value and tree unchanged and can be repeated with the same result.',
  ['inputs', 'histories'], 'every read-only operation on every tree', TREE,
  [('read-only operations', 'zzzjson.h: getters, lookups, stringify, copy')], tech=AI, note=SOUND)
p('C19', 'Lookup and iteration find exactly the stored elements',
  'Lookup by key returns the first member whose key text is byte-for-byte equal to the given key and nothing otherwise; lookup by index returns that element when the index is below the count and nothing otherwise. '
  'Begin and next visit every element once in order and then return nothing, and the size of a container is its number of elements (zero for anything else).',
  ['inputs', 'histories'], 'every container, key, length and index', TREE,
  [('lookups', 'zzzjson.h: key and index lookup, begin, next, size')], tech=AI, note=SOUND)
p('C20', 'Setters store exactly the given content',
  'After a successful set the value has the requested type and exactly the given content (null, the boolean, the number or string text, an empty array or object, the key), keeps its key and its place in its container, and no other value changes. '
  'A value without content becomes a detached value with that content.',
  ['inputs', 'histories'], 'every setter on every value', TREE,
  [('setters', 'zzzjson.h: setters')], tech=AI, note=SOUND)
p('C21', 'Stack use does not depend on the input',
  'No operation uses recursion or input-sized stack memory, so nesting depth and text length can never exhaust the stack.',
  ['inputs', 'configurations'], 'every operation, nesting depth, text length and configuration', 'Tests reach one nesting depth; a limit shows only far beyond it.',
  [('call graph and local buffers', 'zzzjson.h, zzzjson.hpp: whole call graph and every local buffer')], files=(H, HPP),
  tech='call-graph acyclicity and stack-allocation analysis over the LLVM IR', note='Sound: acyclic call graph over resolved callees and only constant-size stack objects, in every configuration.')
p('C22', 'The compiler rejects allocator copies, ownerless values and writes to results',
  'A C++ program that copies, assigns or passes by value an allocator object, or creates a value that no allocator owns, does not compile; neither does a C or C++ program that writes through the pointer any getter or stringify returns '
  '(in C with discarded qualifiers as errors), in the core and in the wrapper classes. The corresponding correct programs compile.',
  ['programs', 'configurations'], 'every client program of these misuse classes', 'A runtime test cannot contain a program that must not compile.',
  [('C++ classes and result types', 'zzzjson.h, zzzjson.hpp: constructors, assignment, getter result types')], files=(H, HPP),
  tech='compile-fail witnesses (each with a compiling twin) decided by the type checker', note='Decides the listed misuse classes exactly as the compiler does.')
p('C23', 'Every convenience layer behaves as the core operation of the same name',
  'Each short-named C function, C++ member function and C++ wrapper-class member performs exactly the core operation of the same name on the same arguments and returns its result (wrapped only when there is a result); constants of the layers equal the core constants.',
  ['programs', 'inputs'], 'every wrapper and every argument', 'Most wrappers are never called by a test.',
  [('wrappers', 'zzzjson.h: short names and C++ members; zzzjson.hpp: wrapper classes')], files=(H, HPP),
  tech='translation of every wrapper to its set of call traces in the IR, compared with the forwarding rule', note='Sound for the analysed wrappers: all paths of each wrapper are enumerated (they are loop-free) and compared as terms.')
p('C24', 'The Go binding forwards faithfully and leaks nothing',
  'The Go binding type-checks against the C interface, each of its functions performs the core operation of the same name on the same arguments and returns its result (reporting absence when there is none), '
  'and every temporary C string it makes is freed on every path and never kept by a value.',
  ['programs', 'inputs'], 'every function of the Go binding', 'The suite has no test of the Go binding.',
  [('cgo binding', 'zzzjson.go')], files=(GO,), tech='go/types and SSA-level forwarding and ownership rules over the cgo binding',
  note='Syntactic and type-level rules over every function of the binding.')
p('C25', 'A double read back after being set is the same double',
  'Setting a value from a double and reading it back as a double gives a number within the documented precision of the original.',
  ['inputs'], 'every finite double', 'Tests try a few values.', [('conversions', 'zzzjson.h: number conversions')],
  na='the result depends on the C library\'s decimal conversions (printf/atof), whose arithmetic no static argument in reach can bound')
p('C26', 'Every operation terminates in time linear in its input',
  'Every operation terminates, and parsing, stringifying and copying take time linear in the size of the text or tree.',
  ['inputs'], 'every input', 'Tests run small inputs only.', [('loops', 'zzzjson.h: all loops')],
  na='termination and cost need ranking functions over heap shapes and amortised arena growth; the fixpoint analysis built here decides safety properties only')
