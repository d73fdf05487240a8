MM = 'nanvm-lib/src/mem/'
JJ = 'nanvm-lib/src/js/'
MI = 'MIR abstract interpretation over a symbolic typed memory'
MN = ('Every path of generic histories is interpreted over the extracted MIR; the number of owners is symbolic, array lengths are bounded (0 to 3) and element types are '
      'representatives of their size, alignment and drop behaviour. No execution, no solver. ')
WN = 'Decided by the Rust compiler itself: each offending program has to be rejected, its twin has to compile. '

prop('M01', 'Reference-counted objects are released exactly once, with their last owner',
     'For every history of creating, cloning, converting and dropping references to a managed object, with either memory manager, the object stays alive and unchanged while at least one reference to it exists, '
     'and its memory is returned to the allocator exactly once, when the last reference goes away. No reference counting operation touches memory that was released, and nothing is leaked unless a reference is leaked.',
     ['histories'], 'all sequences of operations on any number of owners, fixed objects and arrays, nested objects, both memory managers',
     'Tests use short straight-line histories; a lost or doubled count shows only as memory corruption later.',
     [MM + 'optional_ref.rs', MM + 'block.rs', MM + 'block_header.rs', MM + 'ref_.rs'],
     [('owner count updates', MM + 'block_header.rs'), ('clone and drop of references', MM + 'optional_ref.rs'), ('release of a block', MM + 'block.rs')], MI, 'other', MN)
prop('M02', 'Mutable access is granted exactly to a sole owner',
     'Turning a shared reference into a unique one succeeds exactly when there is no other reference to the object, whatever the number of references and whatever happened before; '
     'when it is refused the reference is given back unchanged and the number of owners is what it was, and a unique reference can be shared and made unique again any number of times.',
     ['histories'], 'all numbers of owners and all earlier histories', 'Tests try one or two owners.',
     [MM + 'ref_.rs', MM + 'mut_ref.rs', MM + 'block_header.rs'], [('try_to_mut_ref', MM + 'ref_.rs'), ('MutRef', MM + 'mut_ref.rs')], MI, 'other', MN)
prop('M03', 'Every access to a managed object stays inside its block, aligned and initialised',
     'For every element type and header type (any size and alignment, zero-sized and over-aligned ones included) and every length, objects are placed inside the block allocated for them, aligned for their type, apart from the counter and allocator bookkeeping; '
     'reads and writes through the public interface touch initialised memory of that object only, see what was stored, and the block is released with the size and alignment it was allocated with.',
     ['inputs', 'histories'], 'all element types, headers and lengths, both memory managers',
     'Out-of-bounds or misaligned access usually goes unnoticed in a test.',
     [MM + 'field_layout.rs', MM + 'block.rs', MM + 'flexible_array/mod.rs', MM + 'flexible_array/constructor.rs', MM + 'local.rs'],
     [('layout arithmetic', MM + 'field_layout.rs'), ('array items', MM + 'flexible_array/mod.rs'), ('allocator header', MM + 'local.rs')], MI, 'other', MN)
prop('M04', 'Every stored element is destroyed exactly once',
     'Each element and header moved into a managed object is destroyed exactly once, when it is overwritten or when the object is released, and never read afterwards; '
     'this also holds when the iterator that supplies the elements of an array panics or yields fewer items than it announced (elements may then be leaked but never destroyed twice, nor uninitialised ones destroyed), and when the closure given to an in-place modification panics (the process may then be aborted).',
     ['histories', 'fault_sequences'], 'all element types with destructors, all lengths, panics of every caller-supplied callback',
     'Double destruction needs a panic or a drop at the wrong moment, which tests do not inject.',
     [MM + 'flexible_array/mod.rs', MM + 'flexible_array/constructor.rs', MM + 'block.rs', 'nanvm-lib/src/common/ref_mut.rs'],
     [('object_drop of arrays', MM + 'flexible_array/mod.rs'), ('construction in place', MM + 'flexible_array/constructor.rs'), ('modify', 'nanvm-lib/src/common/ref_mut.rs')], MI, 'other', MN)
prop('M05', 'Sizes never wrap around and failed allocations never yield an object',
     'For every array length up to the largest usize, creating an array either allocates a block that holds all its elements or panics or aborts; size arithmetic never wraps around, in no build profile, and a null result of the system allocator is never used as a block.',
     ['inputs', 'fault_sequences'], 'all lengths, all failures of the allocator', 'Tests cannot allocate near the limits or make the allocator fail.',
     [MM + 'flexible_array/mod.rs', MM + 'field_layout.rs', MM + 'global.rs', MM + 'local.rs'], [('flexible_size', MM + 'flexible_array/mod.rs'), ('FieldLayout::layout', MM + 'field_layout.rs'), ('Global::alloc', MM + 'global.rs')], MI, 'other', MN)
prop('M06', 'Managed references and values cannot reach another thread',
     'No reference (shared or unique) to a managed object and no universal value is Send or Sync, whatever the allocator and element type, and neither is the handle of a local allocator, so that owner counts and allocator statistics are never used by two threads at once.',
     ['schedules'], 'all programs: no safe program can share a count between threads', 'No test can show the absence of a compile-time capability.',
     [JJ + 'any_internal.rs', MM + 'ref_.rs', MM + 'mut_ref.rs', MM + 'local.rs'], [('AnyInternal', JJ + 'any_internal.rs'), ('Ref', MM + 'ref_.rs'), ('MutRef', MM + 'mut_ref.rs')],
     'compile-fail witnesses with compiling twins', 'proof', WN)
prop('M07', 'Borrowed contents never outlive their owner, nor objects their allocator',
     'Safe programs cannot keep items, properties or other borrowed contents beyond the reference they were borrowed from, hold a mutable and another view of an object at once, change an object through a shared reference, '
     'copy a reference without counting it, use a reference after it was converted, keep an object of a local allocator after that allocator is gone, or mix objects of different allocator types.',
     ['histories'], 'all safe programs', 'Tests contain only programs that compile.',
     [MM + 'ref_.rs', MM + 'mut_ref.rs', MM + 'local.rs', JJ + 'any.rs', JJ + 'any_cast.rs'], [('Deref of Ref and MutRef', MM + 'ref_.rs'), ('Manager for &Local', MM + 'local.rs'), ('try_ref, for_each', JJ + 'any.rs')],
     'compile-fail witnesses with compiling twins', 'proof', WN)
prop('M08', 'A local allocator reports exactly the bytes of its live objects',
     'At every moment the size reported by a local allocator equals the total number of bytes it has allocated for the objects that are still alive, for objects of every type, length and alignment and every order of creation, sharing and release; it is zero when no object is left.',
     ['histories'], 'all interleavings of creation, sharing and release', 'Tests check a single object.',
     [MM + 'local.rs'], [('Local::alloc and dealloc', MM + 'local.rs')], MI, 'other', MN)
prop('M09', 'The representation of references and objects is out of reach of safe code',
     'Safe programs cannot read or change an owner count, the stored length of an array, string, object or bigint or the pointer inside a reference or value, build references or values from raw pointers or bits, '
     'or allocate, release or destroy managed memory by hand.',
     ['histories'], 'all safe programs', 'Tests contain only programs that compile.',
     [MM + 'block.rs', MM + 'flexible_array/mod.rs', MM + 'optional_ref.rs', MM + 'mut_ref.rs', JJ + 'any_cast.rs', MM + 'manager.rs'],
     [('private fields', MM + 'block.rs'), ('unsafe conversions', JJ + 'any_cast.rs')], 'compile-fail witnesses with compiling twins', 'proof', WN)
prop('V01', 'Each universal value has exactly one type and every type query agrees on it',
     'For every value, exactly one of the seven type tests (number, boolean, string, null, object, array, bigint) succeeds, and the type query, the reference query, borrowing as an object of some type and the visitor all agree with it; '
     'every conversion to another type is refused. The value was made from data of that type.',
     ['inputs'], 'all numbers (every bit pattern), booleans, null and all objects at any address', 'The tag space has 2^64 patterns; tests try a few.',
     [JJ + 'any.rs', JJ + 'bitset.rs', JJ + 'visitor.rs', JJ + 'any_internal.rs'], [('tags', JJ + 'bitset.rs'), ('get_type, is, try_ref', JJ + 'any.rs'), ('to_visitor', JJ + 'visitor.rs')], MI, 'other', MN)
prop('V02', 'Every double survives conversion to a universal value and back',
     'Every double, including both zeros, infinities, subnormals and NaN of any sign and payload, converts to a universal value that is a number, and converts back to a double with the same bits, or to a NaN if it was a NaN; its clones are equal to it.',
     ['inputs'], 'all 2^64 bit patterns', 'Tests try a handful of numbers.', [JJ + 'number.rs', JJ + 'bitset.rs'], [('AnyCast for f64', JJ + 'number.rs')], MI, 'other', MN)
prop('V03', 'Values give back what was put in',
     'Converting a boolean, null, string, object, array or bigint to a universal value and back, through any of the conversions (by move, by borrowing, through the visitor), gives the same boolean, the same characters, items, properties in order, limbs and sign; '
     'a value equals its clones, and differs from values of another type, of another boolean and from separately created objects.',
     ['inputs', 'histories'], 'all values, all conversions', 'Tests convert a few values.', [JJ + 'any.rs', JJ + 'any_cast.rs', JJ + 'value_cast.rs', JJ + 'visitor.rs', 'nanvm-lib/src/common/bit_subset64.rs'],
     [('AnyCast', JJ + 'any_cast.rs'), ('BitSubset64', 'nanvm-lib/src/common/bit_subset64.rs')], MI, 'other', MN)
prop('V04', 'Iterating over children visits each one once, in order, with its key',
     'Iterating over an array calls the callback once per item in order with the item index as a number; over an object once per property in order with its key string; over any other value never. '
     'The first error returned by the callback ends the iteration and is returned; otherwise the iteration succeeds.',
     ['inputs'], 'all values and callbacks', 'Tests iterate over one array.', [JJ + 'any.rs'], [('for_each', JJ + 'any.rs')], MI, 'other', MN)
prop('V05', 'Universal values count owners like references do',
     'For every history of cloning, converting (successfully or not), visiting, iterating and dropping universal values and the references taken out of them, the object behind a value stays alive while one owner is left and is released exactly once afterwards, '
     'as an object of its own type (with all children it owns), and is reported as uniquely owned exactly if one owner is left.',
     ['histories'], 'all sequences of operations on any number of owners, every object type, both managers', 'Tests follow single histories.',
     [JJ + 'any.rs', JJ + 'any_internal.rs', JJ + 'any_cast.rs', JJ + 'visitor.rs'], [('OptionalBlock for AnyInternal', JJ + 'any_internal.rs'), ('try_move', JJ + 'any.rs')], MI, 'other', MN)
prop('V06', 'Equality of universal values is identity, and equal values hash equally',
     'Two universal values are equal exactly if they are the same number (bit for bit; all NaNs are one value, the two zeros are not), the same boolean, both null, or the same object; in particular a value equals itself and its clones. Two values that are equal feed the same data to a hasher.',
     ['inputs'], 'all pairs of values', 'Tests compare a few values and hash none.', [JJ + 'any_internal.rs', 'nanvm-lib/src/mem/optional_ref.rs'],
     [('PartialEq, Hash for AnyInternal', JJ + 'any_internal.rs'), ('PartialEq, Hash for OptionalRef', 'nanvm-lib/src/mem/optional_ref.rs')], MI, 'other', MN)

PP = 'nanvm-lib/src/parser/'
PM = 'MIR abstract interpretation, product with a reference grammar to a fixpoint within bounds'
PN = ('The parser is interpreted over the extracted MIR together with a reference grammar; names and literals are uninterpreted, the file system is arbitrary; nesting depth, items per container, constants and '
      'modules are bounded (see the evidence), the length of the token sequence is not. No execution, no solver. ')

prop('P01', 'Well-formed documents yield exactly the value and dialect they denote',
     'Every well-formed document (a JSON value, or a data module: import and const statements, each ended by a line break or a semicolon, then one value that may follow `export default` or `module.exports =`) is accepted, and its value has exactly the literals, '
     'array items in order and object properties written (the last one wins when a key repeats); trailing commas, bare identifier keys (except in plain JSON) and line breaks inside values do not change it. '
     'The dialect reported is ES module if import or export is used, CommonJS if require or module.exports is used, otherwise data script if a constant is defined, otherwise JSON.',
     ['inputs'], 'all token sequences, up to a nesting depth of 3 and 4 items per container', 'Tests parse about twenty fixed documents.',
     [PP + 'parser.rs', PP + 'any_state.rs', PP + 'root_state.rs', PP + 'json_state.rs', PP + 'shared.rs'],
     [('value states', PP + 'any_state.rs'), ('module states', PP + 'root_state.rs'), ('driver', PP + 'parser.rs')], PM, 'other', PN)
prop('P02', 'Malformed documents never yield a value',
     'A token sequence outside the grammar ends in an error: unbalanced or mismatched brackets, missing or doubled commas or colons, a missing end of a statement, tokens after the value, a bare key in plain JSON, an undefined name, a tokenizer error, '
     'ES module and CommonJS constructs in one file, or an end of input in the middle. After an error no continuation of the input turns the result into a value again.',
     ['inputs'], 'all token sequences, up to a nesting depth of 3 and 4 items per container', 'Tests contain a handful of malformed documents.',
     [PP + 'parser.rs', PP + 'any_state.rs', PP + 'root_state.rs', PP + 'json_state.rs'],
     [('value states', PP + 'any_state.rs'), ('module states', PP + 'root_state.rs'), ('end of input', PP + 'json_state.rs')], PM, 'other', PN)
prop('P03', 'Names denote the latest constant or import of the same file',
     'An identifier used as a value denotes null, true or false, or else the value of the constant or import of exactly that name defined last before it in the same file, in constants, array items and property values alike; any other identifier is an error. '
     'Object keys and names being defined are never looked up, and definitions of one file are not visible in another.',
     ['inputs'], 'all documents with up to 3 constants or imports alive', 'Tests define one or two constants.',
     [PP + 'any_state.rs', PP + 'const_state.rs', PP + 'root_state.rs', PP + 'parser.rs'], [('lookup', PP + 'any_state.rs'), ('definition', PP + 'parser.rs')], PM, 'other', PN)
prop('P04', 'Parsing never panics',
     'Parsing ends with a value or an error, without a panic of any kind, for every token sequence, however malformed, and every content and failure of the files it imports.',
     ['inputs', 'fault_sequences'], 'all token sequences and file systems within the bounds of the other parser properties', 'Panics hide in documents nobody wrote a test for.',
     [PP + 'parser.rs', PP + 'any_state.rs', PP + 'root_state.rs', PP + 'json_state.rs'], [('all parser states', PP + 'parser.rs')], PM, 'other', PN)
prop('P05', 'Each imported file is loaded once, relative to its importer; cycles fail',
     'A document reads exactly the files it imports, directly or through others, each at most once and when its first import is reached, under the path its import denotes relative to the directory of the importing file; every import of a file yields its value, in whatever spelling of the path and by import or require. '
     'Importing a file that is still being loaded (the root document included) is an error, and so is importing a file that cannot be read or is malformed; nothing is read after an error.',
     ['inputs', 'histories', 'fault_sequences'], 'all file systems, up to 2 modules besides the root, all outcomes of reading', 'Tests use one or two modules in one directory.',
     [PP + 'parser.rs', PP + 'root_state.rs', PP + 'shared.rs', PP + 'path.rs'], [('module cache', PP + 'parser.rs'), ('paths', PP + 'path.rs')], PM, 'other', PN)
prop('P06', 'Every spelling of an import path resolves to one canonical path',
     'Resolving an import appends it to the directory of the importing file and drops empty and "." components and every component followed by ".."; leading ".." components are kept in a relative path and dropped in an absolute one, and an absolute path stays absolute. '
     'No other character of a component is changed, the result is the same for every spelling of the same path, and resolving never panics.',
     ['inputs'], 'all paths of up to 8 characters and of up to 5 components', 'Tests resolve five paths.',
     [PP + 'path.rs'], [('normalize, concat, split', PP + 'path.rs')], 'MIR abstract interpretation over symbolic characters, all path shapes within bounds', 'other',
     'Path shapes are bounded (8 characters or 5 components); the characters other than "/" and "." are uninterpreted. No execution, no solver. ')
prop('P07', 'Pushing tokens one at a time parses like a file',
     'The token-at-a-time interface accepts the same documents, with the same values, dialects and name resolution, as parsing a file does, never panics, and rejects every other token sequence. '
     'Each import statement is reported to the caller, with the name and path written, exactly when it is complete, and its definition is left to the caller; require, which it cannot load, is an error.',
     ['inputs', 'histories'], 'all token sequences, up to 2 names and a nesting depth of 2', 'Only the file interface is tested.',
     [PP + 'json_state.rs', PP + 'root_state.rs', PP + 'const_state.rs', PP + 'any_state.rs'],
     [('push and end', PP + 'json_state.rs'), ('constants', PP + 'const_state.rs'), ('values', PP + 'any_state.rs')], PM, 'other', PN)
SJ, SD = 'nanvm-lib/src/serializer/to_json.rs', 'nanvm-lib/src/serializer/to_djs.rs'
SM = 'MIR abstract interpretation on uninterpreted values; the symbolic text is read back by a reference reader'
SN = 'Shapes of values are bounded (see the evidence), payloads are not: numbers, units and limbs stay symbolic. No execution, no solver. '
prop('S01', 'Serialized strings and keys decode to exactly the same UTF-16 units',
     'Every string value and every property name, whatever its UTF-16 code units (control characters, quotes, backslashes, non-ASCII units and lone surrogates included), is written by both serializers as a double-quoted JSON string literal that decodes to exactly the same sequence of units. '
     'No control character, quote or backslash appears unescaped.',
     ['inputs'], 'all strings of up to 3 arbitrary units, as values and as property names', 'There are 65536 units and several escape classes; tests write a few.',
     [SJ], [('write_js_string, write_js_escape', SJ)], SM, 'other', SN)
prop('S02', 'to_json writes exactly the compact JSON text of a value',
     'The JSON text of a value is the one JSON.stringify writes: no white space, array items and properties in their order, every number that is not finite as null. '
     'A value that contains a bigint anywhere is refused with an error, and no other value is.',
     ['inputs'], 'all trees of up to 4 values of every kind', 'Tests serialize three values.',
     [SJ, 'nanvm-lib/src/js/visitor.rs'], [('write_json, write_list', SJ)], SM, 'other', SN)
prop('S03', 'to_djs preserves structure and sharing; constants precede their uses',
     'The DJS text of a value, read back, gives a value with the same structure and the same sharing of arrays and objects, whatever the iteration order of hash maps: every array or object is written out once, repeated occurrences refer to a constant, and every constant is defined once, before it is used. '
     'After the constants comes the value itself, as an ES module or as a CommonJS module as requested.',
     ['inputs', 'schedules'], 'all acyclic graphs of up to 4 arrays and objects, all hash orders', 'Tests serialize a few graphs with the hash order of that run.',
     [SD, 'nanvm-lib/src/js/any.rs'], [('ConstTracker, write_consts', SD)], SM, 'other', SN)
prop('S04', 'A bigint is written as its exact decimal value in DJS',
     'to_djs writes every bigint, wherever it occurs, as its sign, exactly the decimal digits of its magnitude without leading zeros, and the suffix n; zero is 0n. to_json refuses every bigint.',
     ['inputs'], 'all 64-bit magnitudes and ranges of 128-bit and longer ones', 'The magnitudes are unbounded; tests write two bigints.',
     [SD], [('write_bigint', SD)], SM, 'other', 'Magnitudes of one limb are covered completely, longer ones for the ranges of the upper limbs listed in vf/serchecks.py. ' + SN)
prop('S05', 'A failing writer stops serialization at once and is reported',
     'When the writer given to write_json or write_djs fails at any write, the failure is returned and nothing more is written; when it does not fail, the complete text of the value has been written.',
     ['inputs', 'fault_sequences'], 'all values of up to 3 nodes and small graphs, a failure at every single write', 'Tests write to a String, which never fails.',
     [SJ, SD], [('write_list, write_js_string', SJ), ('write_consts', SD)], SM, 'other', SN)
AP, AM_ = 'nanvm-lib/src/app/mod.rs', 'nanvm/src/main.rs'
AQ = 'MIR abstract interpretation of the application and of main over every environment outcome; the symbolic output is read back by a reference'
AR = 'parse is an environment outcome (a value or any error), decided by P01-P05; the serializers are interpreted as they are. No execution, no solver. '
prop('A01', 'The output file is replaced once, on success, by the text of the input value',
     'When the application reports success, it has written exactly once, to the output path and to no other file, exactly the text of the value of the input file. '
     'When it reports an error (bad arguments, an input that cannot be parsed, a value that cannot be written, a failed write) it has replaced no file.',
     ['inputs', 'fault_sequences'], 'all parser outcomes, all outcomes of writing, values of every kind with shared parts', 'Tests run six conversions that succeed.',
     [AP], [('run', AP)], AQ, 'other', AR)
prop('A02', 'The output format follows the extension of the output path exactly',
     'An output path that ends in .json gets JSON, one that ends in .d.cjs gets a CommonJS module (module.exports=), one that ends in .d.mjs gets an ES module (export default), and every other path is an error.',
     ['inputs'], 'all output paths (the last 9 characters arbitrary)', 'Tests try three good extensions and one bad one.',
     [AP], [('file_to_data_type, run', AP)], AQ, 'other', AR)
prop('A03', 'Every failure of the application is reported and none panics',
     'Missing arguments, an unknown extension, an input that cannot be read or parsed, a value the format cannot represent and a failed write each make the application return an error, and make the program exit unsuccessfully, without a panic; success is reported only after the output was written.',
     ['inputs', 'fault_sequences'], 'all argument counts, all parse errors, all write outcomes', 'Tests check one failure, and none of the program.',
     [AP, AM_], [('run', AP), ('main', AM_)], AQ, 'other', AR)
BJ, BU, BI = JJ + 'js_bigint.rs', 'nanvm-lib/src/big_numbers/big_uint.rs', 'nanvm-lib/src/big_numbers/big_int.rs'
BM = 'MIR abstract interpretation over exact polynomials in the limbs, checked against the arithmetic identity'
BN = ('The limbs of the operands are symbolic words, the number of limbs is bounded (evidence lists the shapes); every path ends in a polynomial identity or an interval bound. '
      'No execution, no solver. ')
prop('B01', 'Sums, differences, negations and conversions of bigints are exact',
     'For every pair of arbitrary-precision integers (runtime bigints, unsigned and signed big numbers) addition, subtraction, negation, absolute value, bitwise complement and conversion from machine integers give the mathematically exact value, whatever the signs, sizes, carries and borrows; '
     'unsigned subtraction gives zero when the subtrahend is larger. The result is always canonical: no leading zero digit and no negative zero.',
     ['inputs'], 'all values of all 64-bit digits, operands of up to 3 digits (4 in the thorough tier), all signs', 'Tests use a few digit patterns; carries and borrows depend on all digits.',
     [BJ, BU, BI], [('add_vec, sub_vec', BJ), ('Add and Sub', BU), ('Add', BI)], BM, 'other', BN)
prop('B02', 'Comparison of bigints is the order of their values',
     'For every pair of arbitrary-precision integers (runtime bigints, unsigned and signed big numbers), equality holds exactly for equal values and comparison gives exactly the order of the values, negative numbers included; the zero test and the last binary digit agree with the value.',
     ['inputs'], 'all values of all digits, operands of up to 3 digits (4 in the thorough tier), all signs', 'Tests compare a few pairs.',
     [BJ, BU, BI], [('compare, equals, cmp_vec', BJ), ('Ord', BU), ('Ord', BI)], BM, 'other', BN)
prop('B03', 'Products and powers of bigints are exact',
     'For every pair of arbitrary-precision integers multiplication gives the exact product with the right sign, in canonical form. Powers are exact too, the zeroth power of everything is one, 0, 1 and -1 can be raised to powers of any size, '
     'and a negative exponent of a runtime bigint, or an exponent that makes the result too large to exist, panics.',
     ['inputs'], 'all values of all digits; products of up to 3 by 1 and 2 by 2 digits (more in the thorough tier), exponents up to 8 for small bases', 'Tests use a few factors; the carries of a product depend on all digits.',
     [BJ, BU, BI], [('mul_vec, add_to_vec, pow', BJ), ('Mul, pow_u64', BU), ('Mul', BI)], BM, 'other', BN)
prop('B04', 'Shifts of bigints multiply by powers of two and round down',
     'For every arbitrary-precision integer (runtime bigint or unsigned big number) and shift amount, a left shift multiplies by two to that amount and a right shift divides by it, rounding towards minus infinity; a negative amount shifts the other way, for every amount, the multiples of 64 and amounts of several digits included. '
     'Only a left shift of a non-zero value by an amount that does not fit 64 bits panics.',
     ['inputs'], 'all values of all digits, values of up to 3 digits, all amounts around the digit boundaries (0 to 199 in the thorough tier)', 'Tests use a few amounts and digits.',
     [BJ, BU], [('shl_on_u64, shr_on_u64', BJ), ('Shl and Shr', BU)], BM, 'other', BN)
prop('B05', 'Bitwise operators on bigints act on infinite two\'s complements',
     'For every pair of runtime bigints, and, or and exclusive or give the integer whose infinite two\'s complement is the digit-wise combination of those of the operands, for all signs and sizes, in canonical form.',
     ['inputs'], 'all values of all digits, operands of up to 2 digits and some of 3 (3 in the thorough tier), all signs', 'Tests use small numbers.',
     [BJ], [('to_twos_complement, from_twos_complement', BJ), ('twos_complement_zip', BJ)], BM, 'other', BN)
prop('B06', 'Division of bigints gives the truncated quotient and its remainder',
     'For every pair of arbitrary-precision integers with a non-zero divisor, division terminates with the quotient rounded towards zero and the remainder dividend minus divisor times quotient, which has the sign of the dividend and is smaller than the divisor; division by zero panics.',
     ['inputs'], 'all values of all digits, dividends of up to 3 digits, all signs, for the divisor sizes listed in the evidence', 'Tests divide small numbers; wrong quotient digits need special digit patterns.',
     [BJ, BU, BI], [('div_mod', BJ), ('div_mod', BU), ('div_mod, Div', BI)], BM, 'other', BN)
BF = 'nanvm-lib/src/big_numbers/big_float.rs'
prop('B07', 'Decimal and binary big floats become the nearest double',
     'For every significand, sign and exponent, the conversion of a decimal big float to a double gives the double nearest to the exact value, ties to even: subnormals included, zero (with its sign) below half the smallest double, an infinity from half a unit above the largest double on, and never a panic or an endless loop however large the exponent is. '
     'A decimal big float converted to p binary digits has exactly p of them, is rounded down, and says whether anything was discarded, digits discarded before included; a binary big float whose discarded digits are known to be non-zero is rounded accordingly.',
     ['inputs'], 'all values of the significands and exponents listed in the evidence (all of up to 64 bits for most exponents, ranges of them for the others); every exponent of binary floats of up to 54 bits', 'Tests convert a few numbers; errors show only in ties, near the limits of the exponent, or when one discarded digit decides.',
     [BF, 'nanvm-lib/src/tokenizer/mod.rs'], [('BigFloat::to_bin, to_f64, get_f64_bits', BF), ('bigfloat_to_f64', 'nanvm-lib/src/tokenizer/mod.rs')],
     'MIR abstract interpretation over integer polynomials with floor quotients, states merged at loop heads, checked against the definition of rounding to nearest', 'other',
     'The significand (and the exponent of binary floats) is symbolic; the operations on bigints stand for the integer operations that B01 to B06 show them to be. Every path ends in an interval bound on 2 * (value / unit - result). No execution, no solver. ')
RM = 'nanvm-lib/src/range_map.rs'
prop('R01', 'Range maps look up and merge exactly, and disagreements never pass silently',
     'For every range map with ascending keys and every key, a lookup finds the value of the first entry whose key is not below it, and nothing above the last entry. Merging any number of such maps gives a map that answers every key with the union of their answers, and panics exactly if two of them give different values for some key. '
     'The map made from a range of characters, or from one character, holds its value for exactly the characters of that range, whichever characters they are.',
     ['inputs'], 'all keys and all orders of them; maps of up to 5 entries (8 in the thorough tier), merges of up to 4 entries in total (5 in the thorough tier), all ranges of characters', 'Tests look up a few keys and merge three pairs of maps of letters and small numbers.',
     [RM], [('RangeMap::get', RM), ('merge, merge_list', RM), ('from_range, from_one', RM)],
     'MIR abstract interpretation with symbolic keys, all orders of the keys, checked against the pointwise definition', 'other',
     'Keys are touched only by comparisons, so the orders of the keys are all that matters; the number of entries is bounded. No execution, no solver. ')
prop('X01', 'Time and memory stay proportionate to the size of the input',
     'Tokenizing, parsing, serializing, comparing and freeing take time and memory bounded by a low-degree polynomial of the size of the input, and a nesting as deep as memory permits does not exhaust the stack.',
     ['inputs'], 'all inputs', 'Tests use small inputs.', ['nanvm-lib/src/parser/analyzer.rs', 'nanvm-lib/src/serializer'], [('parser stack', 'nanvm-lib/src/parser/analyzer.rs')],
     na='The bound relates run-time quantities (elapsed steps, recursion depth, allocated bytes) to the size of the input; no static argument in reach bounds them, least of all the depth of the recursion of destructors and of the serializer, which follows the value. '
        'The parts that are decidable are parts of other properties: exponents do not expand (T05), shared values are not visited repeatedly (S03), division and conversion loops end (B06, B07).')
