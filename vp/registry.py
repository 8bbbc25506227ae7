"""property id -> units that decide it"""
PROPS = {
    'C01': {'units': ['dict'], 'level': 'proof',
            'note': 'findDictEntry, dictGet, dictSet, dictDelete and adjustDictCapacity proved for tables of any power-of-two capacity up to 2^20 and any contents satisfying the representation invariant, with loop contracts; trusts the verifier and the counting argument that a table below capacity has a free slot.',
            'assumptions': ['termination of probing uses: a table whose slot count is below its capacity has a never-used slot (counting argument over single-slot updates, not machine checked)']},
}
NA = {
    'C30': 'Behaviour is defined by the operating system and external libraries (sockets, curl, sqlite, fork/exec, clocks); no contract on code in this repository can state or decide it.',
    'C31': 'Decided by libc printf/strtod floating-point conversion, which is outside the repository and outside what the verifier can reason about (decimal/binary conversion of doubles).',
}
PROPS['C02'] = {'units': ['set', 'dict:h_hash'], 'level': 'proof',
            'note': 'findSetEntry, setGet, setInsert, setDelete and adjustSetCapacity proved for tables of any power-of-two capacity up to 2^20 and any contents satisfying the representation invariant, with loop contracts; trusts the verifier and the counting argument that a table below capacity has a free slot.',
            'assumptions': PROPS['C01']['assumptions']}
PROPS['C08'] = {'units': ['queue'], 'level': 'proof', 'note': 'push, pop, growth, shrinking, observers, release and marking of a queue proved for every ring of capacity up to 2^20 in every position; block copies are represented by a contract that tracks one arbitrary element.', 'assumptions': []}
PROPS['C09'] = {'units': ['stack'], 'level': 'proof', 'note': 'push, pop, growth, shrinking, observers, creation, release and marking of a stack proved for every capacity up to 2^20; block copies are represented by a contract that tracks one arbitrary element.', 'assumptions': []}
PROPS['C06'] = {'units': ['list'], 'level': 'proof', 'note': 'push, insert, pop, remove, contains, extend, reverse, len and value-array growth proved for every list of up to 2^20 elements (any values); element comparison is an arbitrary relation to the searched value; indices are assumed to lie in the int range.', 'assumptions': ['a list index outside the range of int is not converted by the proof (undefined in C; on x86-64 it becomes INT_MIN and is rejected)']}
PROPS['C03'] = {'units': ['table', 'intern', 'rt_names'], 'level': 'proof',
                'note': 'findEntry, tableGet, tableSet, tableDelete, adjustCapacity, tableFindString, tableAddAll, tableRemoveWhite, grayTable, copyString, takeString and hashString proved for every table capacity up to 2^20 and every content satisfying the representation invariant; which texts are equal is an arbitrary relation (memcmp contract).',
                'assumptions': PROPS['C01']['assumptions'] + ['memcmp is zero exactly for equal contents', 'that the hash is a function of the characters alone is executed, not proved (it reads only the text, proved)']}
PROPS['C04'] = {'units': ['nanbox', 'truth', 'rt_kind'], 'level': 'proof',
                'note': 'the value.h codec proved for all 64-bit patterns of doubles without tag bits and all 48-bit addresses; isFalsey proved for every kind and content.',
                'assumptions': ['object addresses have 48 significant bits', 'a NaN whose payload carries the tag bits is not a number value (arithmetic does not produce one)']}
PROPS['C05'] = {'units': ['equal', 'dict:h_get', 'set:h_get', 'rt_equal'], 'level': 'proof',
                'note': 'valuesEqual, listComparison, dictComparison and setComparison proved for all lengths and capacities up to 2^20 against the contracts of dictGet and setGet; symmetry of dictionaries and sets follows by counting (an injection between finite sets of the same size is a bijection).',
                'assumptions': ['numbers are equal exactly when they are the same double bit pattern (0 and -0 differ, as documented in DESIGN.md)', 'cyclic structures are not compared']}
PROPS['C20'] = {'units': ['strorder', 'rt_order'], 'level': 'proof', 'note': 'compareStringLess and compareStringGreater proved for all strings up to 2^20 bytes.', 'assumptions': []}
PROPS['C07'] = {'units': ['sort', 'sortkind', 'rt_sort'], 'level': 'proof', 'note': 'quickSort (loop and recursion), both partition functions (Hoare scheme, nested loops), sortList and the element-kind checks proved for every list of up to 2^20 elements; the string order is an arbitrary total preorder in the partition proof and compareString is proved separately.', 'assumptions': ['lists containing NaN are not ordered (the partition terminates in bounds on them is not claimed)', 'memcmp gives a total preorder on texts of the same length', 'the recursion of quickSort is by induction on the size of the range (each recursive call is proved to be on a smaller one)']}
PROPS['C10'] = {'units': ['buffer', 'rt_buffer'], 'level': 'proof', 'note': 'every read, write, get, set, resize, copy and text access of a buffer proved for every buffer of up to 2^20 bytes, every index (any double, including NaN, negative and fractional) and every value; byte order of all nine widths is proved bit by bit.', 'assumptions': ['64-bit integers are exact up to 2^53 (numbers are doubles)', 'conversion of a value out of the range of the integer width is not specified']}
PROPS['C19'] = {'units': ['str', 'rt_str'], 'level': 'proof', 'note': 'findText (the search under contains, find, split, replace and count), countString, containsString, leftStrip, rightStrip, lower, upper, title, startsWith, endsWith, repeat and len proved for all strings up to 2^20 bytes (repeat: strings up to 8 bytes, counts up to 1000); find, findLast, replace, split, format, wrap and collapseSpaces are executed on the real code, labelled bounded.', 'assumptions': ['which texts are equal is an arbitrary relation (memcmp contract)', 'find, findLast, replace, split and format are bounded, not proved']}
PROPS['C21'] = {'units': ['base64', 'rt_base64'], 'level': 'proof', 'note': 'the encoder and decoder loops, their sizes and the character table proved for every text length up to 2^20, and that decoding inverts encoding group by group.', 'assumptions': []}
PROPS['C22'] = {'units': ['hash', 'rt_hash'], 'level': 'proof', 'note': 'the compression function proved equal to FIPS 180-4 for all blocks and chaining values, update for every length and split, padding for every remaining length, and the keyed construction for every key length up to 200 bytes.', 'assumptions': ['messages shorter than 2^61 bytes']}
PROPS['C15'] = {'units': ['ops', 'fold', 'rt_ops'], 'level': 'proof', 'note': 'each operator instruction of the real run() proved for every pair of operands (doubles bit for bit, and the error for every other kind), and the constant folding of the compiler proved to compute the same value and to fold only when both operands are the constants just emitted.', 'assumptions': ['pow and fmod are the C library functions', 'the parser of expressions (precedence, short circuits, conditions) is executed on the real interpreter, labelled bounded', 'the dispatch is verified in its switch form (COMPUTED_GOTO off)']}
