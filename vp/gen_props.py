import json
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
              'anchors': dict({'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, **kw)})

p('C01', 'A dictionary is a finite map under every history of operations',
  'After any sequence of assignments, reads, existence tests and removals, a dictionary holds exactly the keys that were assigned and not removed since, each with the value assigned last, and its length is the number of those keys. Keys that are not touched by an operation keep their value, also when the dictionary grows or shrinks, and every operation terminates.',
  'inputs histories', 'all keys (nil, booleans, numbers, strings), all values, all histories of operations, all capacities',
  'Tests build a few small dictionaries; collisions, tombstones, wrap-around probing and resizing depend on the history and on hash values.',
  'src/vm/value.c', [('open addressing probe', 'src/vm/value.c findDictEntry'), ('insert/lookup/remove/resize', 'src/vm/value.c dictSet dictGet dictDelete adjustDictCapacity'), ('key hash', 'src/vm/value.c hashValue')])
p('C02', 'A set is a finite set under every history of operations',
  'After any sequence of additions, membership tests and removals, a set contains exactly the values added and not removed since, and its length is the number of those values. Adding a present value or removing an absent one changes nothing and says so, and every operation terminates.',
  'inputs histories', 'all values (nil, booleans, numbers, strings), all histories of operations, all capacities',
  'Tests add and remove a handful of values once; repeated removal, tombstone accumulation and rehashing need long histories.',
  'src/vm/value.c', [('open addressing probe', 'src/vm/value.c findSetEntry'), ('insert/lookup/remove/resize', 'src/vm/value.c setInsert setGet setDelete adjustSetCapacity')])
p('C03', 'Name tables are finite maps and equal strings are one object',
  'Globals, attributes, methods and constants are looked up under their names as in a finite map, whatever was defined, redefined or deleted before. Two strings with the same characters are always the same object and strings with different characters never are, so equality of strings is equality of their characters.',
  'inputs histories', 'all names, all histories of definitions, deletions and collections, all string contents and lengths',
  'Tests use few names per table and never collide on purpose; interning must hold for every content and every table history.',
  'src/vm/table.c src/vm/object.c', [('name table', 'src/vm/table.c findEntry tableSet tableGet tableDelete adjustCapacity'), ('interning', 'src/vm/table.c tableFindString, src/vm/object.c copyString takeString hashString')])
p('C04', 'Every value keeps its kind and its content',
  'Each number (every double), boolean, nil and object reference is stored and read back unchanged, and is recognised as exactly one kind of value. Truthiness is false exactly for nil, false, zero, empty strings and empty collections.',
  'inputs', 'all 2^64 bit patterns of doubles, all booleans, nil, all 48-bit object addresses, all collections',
  'Tests see a few numbers; NaN payloads, infinities, negative zero and the whole address range are not sampled, and an emptied collection differs from a new one.',
  'src/vm/value.h src/vm/vm.c', [('NaN boxing', 'src/vm/value.h IS_NUMBER IS_OBJ AS_OBJ OBJ_VAL NUMBER_VAL'), ('truthiness', 'src/vm/vm.c isFalsey')])
p('C05', 'Equality of values is structural and an equivalence',
  'Two lists are equal exactly when they have the same length and equal elements at every position, two dictionaries exactly when they have the same keys with equal values, two sets exactly when they have the same members; values of different kinds are never equal. Equality is reflexive and symmetric, and does not depend on how a collection was built.',
  'inputs histories', 'all pairs of values, all lengths, collections with any insertion and removal history',
  'Tests compare a few literals; the loops must be right for all lengths, positions and table layouts.',
  'src/vm/value.c', [('equality', 'src/vm/value.c valuesEqual listComparison dictComparison setComparison')])
p('C06', 'List operations behave as operations on a finite sequence',
  'push, insert, pop, remove, extend, reverse, contains and len give the elements the sequence model gives, at every position, and leave the others unchanged and in order. An index outside the list is rejected with an error, and no operation reads or writes outside the elements of the list.',
  'inputs histories', 'all list lengths, all element values, all index arguments',
  'Tests use lists of a few elements and a few indices; growth boundaries and extreme indices are not covered.',
  'src/vm/datatypes/lists/lists.c src/vm/value.c', [('list natives', 'src/vm/datatypes/lists/lists.c'), ('growable array', 'src/vm/value.c writeValueArray')])
p('C07', 'Sorting a list yields the ordered permutation of its elements',
  'Sorting a list of numbers or of strings leaves the same elements, each as often as before, in non-decreasing order, and terminates. No other list element type is accepted.',
  'inputs', 'all list lengths and all element values', 'Tests sort a handful of short lists; the result must be ordered for every length, duplicates pattern and initial order.',
  'src/vm/datatypes/lists/lists.c', [('sort', 'src/vm/datatypes/lists/lists.c sortList')])
p('C08', 'A queue returns its elements in insertion order',
  'For every sequence of pushes and pops, a queue returns exactly the pushed elements, each once, in the order in which they were pushed, and its length and emptiness reports agree with that. Growing the queue loses, duplicates or reorders nothing.',
  'inputs histories', 'all values, all interleavings of push and pop, all capacities and wrap positions',
  'Tests push and pop a few elements; growth while the ring is wrapped needs a particular history.',
  'src/optionals/queue.c', [('ring buffer', 'src/optionals/queue.c queuePush queuePop queuePeek')])
p('C09', 'A stack returns its elements in reverse insertion order',
  'For every sequence of pushes and pops, a stack returns the most recently pushed element that was not yet popped, and its length and emptiness reports agree with that.',
  'inputs histories', 'all values, all interleavings of push and pop, all capacities',
  'Tests push and pop a few elements and rarely cross a growth boundary.', 'src/optionals/stack.c', [('growable stack', 'src/optionals/stack.c stackPush stackPop stackPeek')])
p('C10', 'Buffers are byte arrays: bounded, and what is written is read back',
  'A number written to a buffer with a given width and byte order is read back unchanged with the same width and byte order at the same position, lies in memory in that byte order, and changes no other byte. Every access whose bytes do not lie inside the buffer is rejected without touching memory.',
  'inputs histories', 'all buffer sizes, all positions including negative and huge ones, all values, all widths and both byte orders',
  'Tests use a few positions of small buffers; positions near and far beyond the end need arithmetic on the full range.',
  'src/optionals/buffer.c', [('bounds', 'src/optionals/buffer.c ensureSize'), ('typed access', 'src/optionals/buffer.c bufferRead* bufferWrite*')])
p('C11', 'Garbage collection keeps everything reachable and frees the rest',
  'A collection marks every object referenced from the stack, the call frames, open captured variables, globals, modules and compiler state, and everything those reference, transitively. Objects that are marked survive with their content unchanged and unmarked for the next cycle; objects that are not are unlinked and released exactly once, and interned strings that die leave the intern table.',
  'inputs histories', 'all object kinds, all object graphs, all table contents, all moments at which a collection runs',
  'Tests exercise some object kinds; a missed child edge only shows when a collection happens while that edge is the only one.',
  'src/vm/memory.c src/vm/table.c src/vm/value.c src/vm/compiler.c', [('marking', 'src/vm/memory.c grayObject grayValue blackenObject collectGarbage'), ('children of tables', 'src/vm/table.c grayTable, src/vm/value.c grayDict graySet'), ('sweep', 'src/vm/memory.c collectGarbage tableRemoveWhite')])
p('C12', 'Memory accounting is exact',
  'Every byte an object accounts for when it is created or grows is given back when it is released, so that releasing everything brings the accounted memory back to zero. No block is released twice or with a size other than its own.',
  'inputs histories', 'all object kinds, sizes and histories of growth and shrinkage', 'Tests can only look at the final balance of a few scripts; the collector trigger depends on the balance for every history.',
  'src/vm/memory.c src/vm/object.c src/vm/value.c src/vm/table.c src/vm/chunk.c', [('allocator', 'src/vm/memory.c reallocate'), ('release', 'src/vm/memory.c freeObject'), ('constructors', 'src/vm/object.c')])
p('C13', 'Closures share captured variables with their scope',
  'All closures that capture the same variable share one cell for it: an assignment through one is seen by the others and by the enclosing scope while it is active, and the last value persists after the scope has ended. Different variables never share a cell.',
  'inputs histories', 'all capture orders, all stack positions, all nestings of closing scopes', 'Tests nest a few closures; the sorted list of open captures must be right for every order of capturing and closing.',
  'src/vm/vm.c src/vm/compiler.c', [('open captures', 'src/vm/vm.c captureUpvalue closeUpvalues'), ('resolution', 'src/vm/compiler.c resolveUpvalue addUpvalue resolveLocal')])
p('C14', 'Calls bind arguments to parameters exactly or fail',
  'A call with a number of arguments between the required and the total number of parameters binds each argument to its parameter in order and gives the remaining optional parameters their defaults; a variadic function receives all surplus arguments, in order, as one list. Any other number of arguments is rejected with an error before the body runs.',
  'inputs', 'all arities, all optional counts, all argument counts and values', 'Tests call functions with a few arities; the stack arithmetic must be right for all of them.',
  'src/vm/vm.c', [('frame set-up', 'src/vm/vm.c call callValue')])
p('C15', 'Operators compute the documented arithmetic on all numbers',
  'Each arithmetic, comparison, logical and bitwise operator yields, for all operand values, the result of the corresponding operation on doubles or on integers, and rejects operands of other types with an error. An expression of constants has the same value whether it is evaluated at compile time or at run time.',
  'inputs programs', 'all operand values and kinds, all operators', 'Tests evaluate a few literals, which the compiler folds, so that the run-time path and extreme operands are rarely reached.',
  'src/vm/vm.c src/vm/compiler.c', [('operators', 'src/vm/vm.c run'), ('folding', 'src/vm/compiler.c foldBinary foldUnary')])
p('C16', 'Compiled jumps and operands always denote what the source says',
  'Every jump and loop the compiler emits lands exactly on the intended instruction, and every constant operand denotes the intended constant, for functions of every size; a function too large for the encoding is a compile-time error. Bytecode and line information grow without losing or altering what was emitted before.',
  'programs', 'all code sizes, all jump distances, all constant pool sizes', 'Test programs are small; the limits of the encoding are never reached.',
  'src/vm/compiler.c src/vm/chunk.c src/vm/vm.c', [('encoding', 'src/vm/compiler.c emitJump patchJump emitLoop makeConstant'), ('decoding', 'src/vm/vm.c READ_SHORT OP_JUMP OP_LOOP'), ('code buffer', 'src/vm/chunk.c writeChunk addConstant')])
p('C17', 'Every source text is split into tokens exactly and in bounds',
  'For every source text the scanner terminates, never reads beyond the end of the text, and each token is a consecutive piece of the text that starts at or after the end of the one before. A word is a keyword exactly when it is spelled exactly as that keyword, and otherwise an identifier; line numbers count the newlines passed.',
  'inputs', 'all source texts of any length and content', 'Tests scan well-formed programs; unterminated comments and strings, odd characters and near-keywords are not covered.',
  'src/vm/scanner.c', [('scanner', 'src/vm/scanner.c scanToken skipWhitespace identifierType string number')])
p('C18', 'String escapes decode exactly',
  'A string literal denotes its characters with each documented escape sequence replaced by the byte or character it stands for, and everything else unchanged. An invalid escape is reported, and decoding never reads or writes outside the literal.',
  'inputs', 'all literal contents and lengths', 'Tests contain a few well-formed escapes; truncated and adjacent escapes are not covered.',
  'src/vm/compiler.c', [('escape decoding', 'src/vm/compiler.c parseEscapeSequences parseString')])
p('C19', 'String methods compute their definition on every string',
  'contains, startsWith, endsWith, find, findLast, count, replace, split, strip, leftStrip, rightStrip, repeat, upper, lower, title and len return what their definition says for every receiver and argument, including empty and all-blank strings. No string method reads or writes outside the strings involved, and a wrong argument type or count is an error.',
  'inputs', 'all receivers and arguments, all lengths', 'Tests use a few short words; empty, blank, overlapping and boundary cases are not covered.',
  'src/vm/datatypes/strings.c', [('string natives', 'src/vm/datatypes/strings.c')])
p('C20', 'Strings are ordered lexicographically',
  'The operators < <= > >= on strings agree with the lexicographic order of their characters: exactly one of less, equal and greater holds for any two strings.',
  'inputs', 'all pairs of strings of any length', 'Tests compare a few words; prefixes and empty strings are the interesting cases.',
  'src/vm/value.c src/vm/vm.c', [('comparison', 'src/vm/value.c compareStringLess compareStringGreater')])
p('C21', 'Base64 decoding inverts encoding',
  'Encoding any text gives its standard padded Base64 form, and decoding that form gives the text back. Decoding any other text never reads or writes out of bounds.',
  'inputs', 'all texts of any length', 'Tests encode a few words; all three length classes and all byte values need full coverage.',
  'src/optionals/base64/base64Lib.c src/optionals/base64.c', [('codec', 'src/optionals/base64/base64Lib.c')])
p('C22', 'Hash functions compute the standard digests for every input length',
  'The SHA-256 digest of any input is the FIPS 180-4 digest, independent of how the input is divided into pieces, and the keyed digest is the RFC 2104 construction on it, for every key length. The hexadecimal form has two lower-case digits per byte.',
  'inputs', 'all inputs, all lengths, all divisions into pieces, all key lengths', 'Tests hash a few short words; block boundaries and long keys are not covered.',
  'src/optionals/hashlib/sha256.c src/optionals/hashlib/hmac.c src/optionals/hashlib/utils.c', [('sha256', 'src/optionals/hashlib/sha256.c'), ('hmac', 'src/optionals/hashlib/hmac.c'), ('hex', 'src/optionals/hashlib/utils.c')])
p('C23', 'Big integer arithmetic is exact',
  'Addition, subtraction, comparison, shifts, bitwise operations, multiplication, division and remainder of unsigned big integers give the mathematical result whenever it fits the fixed width. Carries and borrows propagate over any number of words.',
  'inputs', 'all operands of the fixed width', 'Tests use a few operands; carry chains across many words are rare.',
  'src/optionals/bigint/bigint.c', [('word arithmetic', 'src/optionals/bigint/bigint.c')])
p('C24', 'JSON text escapes and numbers survive serialisation and parsing',
  'Serialising any string to JSON and parsing the result gives the same string back; serialised text contains no raw control character or unescaped quote. Parsing any text terminates without touching memory outside it.',
  'inputs', 'all strings and all JSON texts', 'Tests round-trip a few documents.', 'src/optionals/json/jsonParseLib.c src/optionals/json/jsonBuilderLib.c src/optionals/json.c',
  [('parser', 'src/optionals/json/jsonParseLib.c'), ('builder', 'src/optionals/json/jsonBuilderLib.c')])
p('C25', 'Path functions split and join paths consistently',
  'For every path, dirname and basename are the parts before and after its last separator as documented, extname is the extension of the basename, and isAbsolute holds exactly for paths that start with a separator. No path function touches memory outside its argument and result.',
  'inputs', 'all path strings', 'Tests use a few typical paths; empty paths, runs of separators and dot files are not covered.',
  'src/optionals/path.c', [('path natives', 'src/optionals/path.c')])
p('C26', 'Aggregate math functions agree with their definition',
  'min, max, sum and average of any list or argument sequence of numbers, and gcd and lcm of any integers, are the mathematical value, and abs, floor, ceil and sqrt their standard meaning. Arguments that are not numbers are rejected.',
  'inputs', 'all lists, all argument counts, all numbers', 'Tests use a few small positive numbers.', 'src/optionals/math.c', [('math natives', 'src/optionals/math.c')])
p('C27', 'Copies are independent of their original',
  'A shallow copy has the same elements as its original and its own storage, so adding, replacing or removing an element of one never shows in the other. A deep copy additionally copies every nested list, dictionary and instance, and equals the original at the time of copying.',
  'inputs histories', 'all collections and instances of any size', 'Tests copy a few small literals and check a few mutations.',
  'src/vm/datatypes/copy.c', [('copying', 'src/vm/datatypes/copy.c copyList copyDict copySet copyInstance')])
p('C28', 'Constants and private members are protected; lookup finds the nearest method',
  'A constant is never assigned after its declaration, whatever the scope or path of the assignment, and private attributes and methods are accessible only from the methods of their own object. Looking up a method finds the definition of the class itself or else of the nearest ancestor that has one.',
  'programs histories', 'all programs, all class hierarchies, all scopes', 'Tests contain a few rejected programs per rule.',
  'src/vm/compiler.c src/vm/vm.c src/vm/table.c', [('constants', 'src/vm/compiler.c checkConst'), ('lookup', 'src/vm/vm.c invoke invokeFromClass bindMethod')])
p('C29', 'Subscripts and slices select exactly the addressed elements',
  'Reading or writing an element by index, with negative indices counted from the end, addresses exactly that element; an index outside the sequence is an error. A slice has exactly the elements from its start to before its end, clipped to the sequence, in order, and leaves the original unchanged.',
  'inputs', 'all sequences, all index values including fractional, negative and huge ones', 'Tests use a few indices of short lists and strings.',
  'src/vm/vm.c', [('subscript', 'src/vm/vm.c OP_SUBSCRIPT OP_SUBSCRIPT_ASSIGN'), ('slice', 'src/vm/vm.c OP_SLICE')])
p('C30', 'Network, process, database, clock and random facilities behave as documented',
  'Sockets, HTTP requests, subprocesses, SQLite access, FFI, time and randomness deliver what the operating system or the external library delivers, without loss or alteration.',
  'inputs schedules configurations', 'all environments', 'Tests need live services and only sample them.', 'src/optionals/socket.c src/optionals/http/http.c src/optionals/process.c src/optionals/sqlite.c',
  [('bindings', 'src/optionals')])
p('C31', 'Floating point text conversion round-trips',
  'A number printed and read back is the same number, and a number literal denotes the nearest double.',
  'inputs', 'all doubles', 'Tests print a few numbers.', 'src/vm/value.c src/vm/compiler.c', [('printing', 'src/vm/value.c valueToString'), ('literals', 'src/vm/compiler.c number')])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
import jsonschema
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x, S)
print(len(P))
