FRONT = ['src/yul2ir/utils.rs', 'src/yul.lalrpop', 'src/yul2ir/ast.rs']
C = 'stdlib/'
RTNOTE = 'Random search over generated cases, not exhaustive. The release C library is compiled with clang 16 as the repository does and run as wasm under node against a mock chain; trusts clang, wasm-ld, node and the mock chain.'

p('P01', 'Comment removal keeps all program text',
  'Removing comments from any source text deletes exactly the line comments and block comments and leaves every other character in place, in order; comment-like text inside a string literal, with any escapes, is kept. A block comment ends at the first terminator after its start, and an unterminated comment extends to the end of the text.',
  ['inputs'], 'every source text: any mix of strings, escapes, comments, runs of stars and slashes, any Unicode text',
  'two unit tests sample one text each; the scanner is a state machine over all character sequences',
  ['src/yul2ir/utils.rs'], [('comment remover', 'src/yul2ir/utils.rs remove_comments')], 'text returned for a source text',
  ('generated texts against a reference scanner', 'Random search. The real function is compiled and called; the reference scanner is an independent implementation.'))
p('P02', 'The reader accepts exactly the grammar and loses nothing',
  'Every well-formed contract source is accepted, and the syntax tree that is read contains exactly the objects, data, functions, statements, expressions, names and literals of the source, nested and ordered as written, whatever the layout and comments. A source that is not well-formed is rejected with an error.',
  ['programs', 'inputs'], 'every well-formed source from the grammar with any layout, and every single-token damage of one',
  'tests parse a handful of programs and mostly check that compilation does not fail',
  FRONT, [('grammar', 'src/yul.lalrpop'), ('syntax tree', 'src/yul2ir/ast.rs')], 'syntax tree or error for a source text',
  ('generated programs printed and read back; damaged programs against a reference reader', 'Random search over programs up to moderate size. Trusts the reference reader for damaged programs.'))
p('P03', 'Literals denote exactly the text or bytes written',
  'A string literal denotes the text obtained by replacing each escape by its character and dropping line continuations, in expressions, case labels and object names alike; a literal with an escape that denotes no character is rejected instead of getting a made-up value. Hexadecimal data and data names come through unchanged.',
  ['inputs'], 'every literal over all escape forms, continuations, Unicode and quote placements, in every position a literal can occur',
  'no test looks at decoded literals beyond plain text',
  FRONT, [('literal decoding', 'src/yul2ir/utils.rs unescape_str'), ('grammar actions', 'src/yul.lalrpop')], 'value of a literal in the syntax tree',
  ('literals generated together with their value', 'Random search. The generator pairs each literal with the text it denotes by construction.'))
p('P04', 'No source text makes the reader crash or hang',
  'For any text, reading a contract source ends with a syntax tree or an error; it never panics, aborts or runs without end, and the answer depends only on the text.',
  ['inputs'], 'arbitrary texts: random bytes decoded as text, token soup, damaged and deeply nested programs',
  'tests only feed well-formed sources',
  FRONT, [('reader', 'src/yul.lalrpop, src/yul2ir/utils.rs')], 'outcome of reading a text',
  ('fuzzing with mutated programs, token soup and raw text', 'Random search. Very deep nesting (beyond a few hundred levels) is not explored.'))
p('P06', 'Word comparisons, bit operations, shifts and addition are exact',
  'Signed and unsigned comparison, equality, zero test, and, or, xor, not, shifts by any non-negative count and addition of 256-bit words give the result of 256-bit modular integer arithmetic, whatever the operand values and in both word representations. They change nothing but their result.',
  ['inputs'], 'all pairs of 256-bit words and all shift counts',
  'tests try a few small constants; errors sit at carries, sign boundaries, byte positions and word boundaries',
  [C + 'chain_math.c'], [('word operations', 'stdlib/chain_math.c')], 'result word of an operation',
  ('differential against big-integer arithmetic', RTNOTE))
p('P07', 'Conversions between number representations are exact',
  'Converting a 256-bit word between its big-endian byte form and the native integer form, and a 32-bit integer to and from a word, preserves the value; a word reduced to 32 bits keeps exactly its low 32 bits, and a widened 32-bit integer has zero upper bits.',
  ['inputs'], 'all 256-bit words and 32-bit integers',
  'tests never call the conversions on values that are not small or symmetric',
  [C + 'chain.c'], [('conversions', 'stdlib/chain.c u256_from_big_endian_bytes, u256_to_big_endian_bytes, i32_to_bytes32_big_endian_bytes, i32_from_big_endian_bytes32')], 'converted value',
  ('round trips and definitions over generated words', RTNOTE))
p('P08', 'Exponentiation, sign extension and modular arithmetic are exact',
  'Exponentiation is modulo 2^256 with exponent 0 giving 1; sign extension replicates the sign bit of the chosen byte and leaves the word unchanged for byte positions 31 and above; modular addition and multiplication use the full-width intermediate and give 0 for modulus 0.',
  ['inputs'], 'all operand words and byte positions',
  'tests use one or two small operands',
  [C + 'chain.c'], [('wide arithmetic', 'stdlib/chain.c wrapper_exp, wrapper_sign_extend, wrapper_addmod, wrapper_mulmod')], 'result word',
  ('differential against big-integer arithmetic', RTNOTE))
p('P09', 'EVM memory is one zero-initialised byte array',
  'Through any history of word and byte stores, loads of any width, copies (also between overlapping ranges), hashes and copies into memory, every read gives the bytes last written there and zero elsewhere, memory grows as needed, and the reported memory size is the highest byte accessed rounded up to 32. Word access is big-endian at any alignment.',
  ['histories', 'configurations'], 'histories of memory operations at any offsets (up to 300 KB; up to 16 KB in the one-page layout), in each memory layout of a compiled contract',
  'tests run fixed contracts that touch a few low addresses; growth boundaries, overlaps and unaligned or stale bytes need histories',
  [C + 'evm_memory.c', C + 'chain.c'], [('memory growth', 'stdlib/evm_memory.c'), ('loads and stores', 'stdlib/chain.c wrapper_mstore_*, wrapper_mload_*, wrapper_mcopy')], 'values read, size reported, final memory',
  ('stateful testing against a byte-array model', RTNOTE))
p('P10', 'Call data reads are exact and zero past the end',
  'Loading a word, the function selector or a range of the call data gives its bytes, with zeros past its end, at any offset and for any call data length; the size queries give its length. Reads may be repeated and mixed in any order without affecting one another, and copying changes only the target range.',
  ['inputs', 'histories'], 'all call data lengths and offsets, sequences of reads in one execution',
  'tests pass well-formed call data and read inside it; lengths around the selector, word and cache sizes and offsets past the end are not reached',
  [C + 'chain.c'], [('call data access and its cache', 'stdlib/chain.c cachedCallDataCopy, wrapper_calldata*')], 'values read and memory copied to',
  ('stateful testing against a byte-string model', RTNOTE))
p('P11', 'Code reads see the code, then the deployment arguments, then zeros',
  'Copying from the contract code gives its bytes; during deployment the constructor arguments follow the code immediately, and beyond the available bytes zeros are copied. The code size counts the arguments during deployment and only the code otherwise, and embedded constant data is copied unchanged.',
  ['inputs', 'histories'], 'all code and argument lengths and copy ranges, deploying or called',
  'tests deploy contracts whose constructors read all their arguments at once',
  [C + 'chain.c'], [('code copy', 'stdlib/chain.c wrapper_codecopy'), ('code size', 'stdlib/chain.c wrapper_current_contract_code_size')], 'memory copied to and sizes returned',
  ('stateful testing against the concatenation of code and arguments', RTNOTE))
p('P12', 'Storage holds the last value written to each slot',
  'Persistent and transient storage are independent maps from slots to words: a load gives the last value stored to that slot and zero if none, whichever of the equivalent access paths (256-bit integer, byte string, little-endian) wrote or reads it. On the chain every slot and value appears in big-endian byte order.',
  ['histories'], 'histories of loads and stores over several slots through every access path',
  'tests store and load one value through one path, so two matching mistakes cancel',
  [C + 'chain.c'], [('storage access', 'stdlib/chain.c wrapper_sload_*, wrapper_sstore_*, wrapper_tload_*, wrapper_tstore_*')], 'loaded values and chain state',
  ('stateful testing against a map model with final state comparison', RTNOTE))
p('P13', 'Immutables are written once and then constant',
  'An immutable reads as the value it was set to, zero included, in this and every later execution; setting it a second time fails with an error and changes nothing; setting one immutable affects neither other immutables nor ordinary storage.',
  ['histories'], 'histories of sets, reads and ordinary storage writes over several immutables and executions',
  'tests set one immutable once',
  [C + 'chain.c'], [('immutables', 'stdlib/chain.c wrapper_setimmutable, wrapper_loadimmutable')], 'values read and failure of a second set',
  ('stateful testing against a write-once map', RTNOTE))
p('P14', 'External calls transfer exactly the stated data both ways',
  'A call of any kind hands the chain exactly the gas, address, value and input bytes given; its result is 1 for success and 0 for a failed call; the output area receives the return data up to its length and keeps its remaining bytes, and the whole return data stays available by size and copy. Copying return data beyond its end fails, a failed precompile call writes nothing, and a failure that ends the caller carries the return data of the callee unchanged when there is any up to 1024 bytes.',
  ['inputs', 'fault_sequences', 'histories'], 'sequences of calls with every outcome, return data shorter, equal or longer than the output area',
  'tests exercise a few calls that succeed with one word of data',
  [C + 'chain.c'], [('calls', 'stdlib/chain.c wrapper_call_contract, wrapper_delegatecall, wrapper_staticcall, write_call_data, wrapper_returndata_copy')], 'calls seen by the chain, result, memory, return data',
  ('stateful testing with scripted callee outcomes', RTNOTE + ' A failed call with less return data than the output area ends the caller (known finding): there only the passed-on data is checked.'))
p('P15', 'Contract creation passes code, arguments, value and salt exactly',
  'A creation hands the chain the embedded code with its length prefix, the constructor arguments that follow it, the value, the kind of creation and the salt unchanged, and gives back the 20-byte address of the new contract as a word with zero upper bytes. A failed creation never yields a non-zero address.',
  ['inputs', 'fault_sequences'], 'all code and argument lengths, values and salts, successes and failures',
  'tests create one fixed contract',
  [C + 'chain.c'], [('creation', 'stdlib/chain.c wrapper_create, wrapper_create2')], 'creation seen by the chain and address returned',
  ('generated creations against a recording chain', RTNOTE))
p('P16', 'Logs carry exactly the given data and topics',
  'Each log emits one event whose data is the named memory range, zero where nothing was written, and whose topics are the given words in order and number; emitting changes neither memory nor the topics.',
  ['inputs', 'histories'], 'sequences of logs with 0 to 4 topics over any memory range',
  'tests emit a few fixed events and mostly do not inspect them',
  [C + 'chain.c'], [('logs', 'stdlib/chain.c wrapper_log0..wrapper_log4')], 'events recorded by the chain',
  ('generated logs against recorded events', RTNOTE))
p('P17', 'Environment queries return the chain values exactly',
  'Every query of the execution environment (addresses, value, balances, block and transaction fields, account code, its size and hash) gives the chain value as a word of the right width, independent of the previous content of the result and of the upper bytes of an address argument. Copying account code gives zeros past its end and changes only the target range.',
  ['inputs', 'configurations'], 'all environments, accounts and query arguments',
  'tests run in one fixed mock environment with small values',
  [C + 'chain.c'], [('getters', 'stdlib/chain.c wrapper_caller .. wrapper_extcode_hash')], 'value returned by a query',
  ('generated environments, every getter compared', RTNOTE))
p('P18', 'Ending operations hand out exactly the stated outcome and data',
  'Return, revert, stop, invalid and self-destruct end the execution at once with exactly that outcome; return and revert hand out exactly the named memory range, zero where nothing was written and also where memory was never expanded, and self-destruct names the 20-byte beneficiary.',
  ['inputs', 'histories'], 'any memory content, range and ending operation in each memory layout',
  'tests end with short results from low memory',
  [C + 'chain.c'], [('ending operations', 'stdlib/chain.c wrapper_return, wrapper_revert, wrapper_stop, wrapper_invalid, wrapper_selfdestruct')], 'outcome and data seen by the chain',
  ('generated endings against a flat memory model', RTNOTE))
p('P19', 'Internal buffers, free pointer and EVM memory never interfere',
  'Temporary buffers handed to a running contract are disjoint from one another, from EVM memory and from all other data, for any number of requests, and keep their content until overwritten by their owner. The built-in memory allocator returns the current free pointer and advances it by the size rounded up to 32.',
  ['histories', 'configurations'], 'histories of buffer requests (thousands), memory use within one page of EVM memory (16 KB in the one-page layout) and allocator calls',
  'no test takes more than a few buffers; the overflow areas are reached only after hundreds of requests',
  [C + 'chain.c', C + 'evm_memory.c'], [('buffers', 'stdlib/chain.c memory_alloca_bytes32'), ('allocator', 'stdlib/chain.c wrapper_allocate_memory')], 'addresses and contents of buffers',
  ('stateful testing of disjointness and persistence', RTNOTE + ' Two layout overlaps are known findings and excluded by construction.'))
p('P20', 'The built-in token transfer equals the function it replaces',
  'The built-in transfer moves the amount between the two balances, with the same log, and fails with the same error data for a zero sender, a zero recipient or an insufficient balance, as the token function documented next to it; only the low 20 bytes of the addresses count, and a failed transfer changes nothing.',
  ['histories', 'inputs'], 'sequences of transfers between a few accounts with arbitrary balances and amounts',
  'one test contract makes ordinary transfers',
  [C + 'chain.c'], [('transfer fast path', 'stdlib/chain.c wrapper_optimized_erc20_fun_transfer')], 'storage, logs and outcome of a transfer',
  ('differential against an interpretation of the documented function', RTNOTE))
CORE = ['src/yul2ir/transform.rs', 'src/yul2ir/instruction.rs', 'src/yul2ir/context.rs']
E2E = 'Random search over generated programs, not exhaustive. The real compiler is built with its LLVM bindings replaced by an equivalent layer over LLVM 18; the wasm it makes runs under node on a mock chain. Trusts LLVM, node, the mock chain and the reference interpreter, which is written from the Yul and EVM definitions.'
p('P21', 'Every builtin of a compiled program gives its EVM result',
  'In a compiled contract each arithmetic, comparison, bit, hashing, memory, call data and environment builtin gives its EVM result on 256-bit words for all operand values, whether operands are literals or computed and whatever type or context the result is used in. Arguments are evaluated once, from right to left.',
  ['programs', 'inputs', 'configurations'], 'all uses of builtins as operand, condition, case, key, topic, argument, memory offset or loop bound, with words from any source',
  'tests run a few fixed contracts; the compiler chooses among several code paths by operand type and constness, which they do not combine',
  CORE + ['src/yul2ir/yul_instruction.rs', 'src/yul2ir/infer.rs'], [('builtin translation', 'src/yul2ir/transform.rs, src/yul2ir/yul_instruction.rs'), ('arithmetic', 'src/yul2ir/instruction.rs')], 'effects and outcome of a compiled contract on an input',
  ('generated expression programs, compiled and compared with a reference interpreter', E2E + ' Memory offsets of 2^32 and more are a known finding.'))
p('P22', 'Compiled control flow, functions and scopes follow Yul',
  'A compiled program executes the same sequence of effects as its source under Yul semantics: branches, switches with any cases, loops with break and continue, leave, nested scopes and shadow-free names, functions with several parameters and results, recursion, multiple assignment, and right-to-left evaluation of arguments with side effects. Variables keep their value until assigned and start at zero.',
  ['programs', 'inputs'], 'all nestings of statements and function calls up to a bounded size',
  'tests contain compiler-generated code with a narrow set of shapes',
  CORE + ['src/yul2ir/var_scope.rs', 'src/yul2ir/function_deduplicator.rs', 'src/yul2ir/usage.rs'], [('statements', 'src/yul2ir/transform.rs'), ('scopes', 'src/yul2ir/var_scope.rs'), ('identical functions', 'src/yul2ir/function_deduplicator.rs')], 'effects and outcome of a compiled contract on an input',
  ('generated programs, compiled and compared with a reference interpreter', E2E))
p('P23', 'Build options never change what a contract does',
  'For every combination of optimisation level, debug, inlining, size, storage byte order and result representation options, the compiled contract has the same outcome, data, storage, logs and calls for the same input as the source demands; only storage byte order follows its option. Options that assume conventions of compiler-generated code do so only for programs that follow them.',
  ['configurations', 'programs', 'inputs'], 'all option sets for generated programs, including those of the token idioms the options look for',
  'tests use one or two option sets and never compare the builds with each other',
  CORE + ['src/yul2ir/config.rs', 'src/main.rs'], [('options', 'src/yul2ir/config.rs'), ('option-dependent paths', 'src/yul2ir/yul_instruction.rs, src/yul2ir/stdlib.rs')], 'behaviour of builds of one source under different options',
  ('differential testing of builds against each other and a reference interpreter', E2E + ' With all optimizers on, free-pointer accesses that break the convention of Solidity code are a known finding.'))
p('P24', 'Objects, embedded data and created contracts are what the source says',
  'Data and object sizes, offsets and copies give the embedded bytes with a 4-byte length prefix; copying code during deployment gives constructor arguments after the code. A contract that creates an embedded object hands the chain a module that behaves as that object is written.',
  ['programs', 'inputs', 'histories'], 'object trees with several data items and nested objects, any data bytes and constructor arguments',
  'tests embed one object and do not look inside',
  CORE + ['src/yul2ir/wasm.rs', 'src/yul2ir/ast.rs'], [('data and objects', 'src/yul2ir/transform.rs, src/yul2ir/context.rs')], 'bytes copied, module handed to the chain and its behaviour',
  ('generated object trees; embedded modules are extracted, run and compared with a reference interpreter', E2E))
p('P25', 'Library addresses and immutables have exactly the given values',
  'A linker symbol evaluates to the address given for it at compile time wherever it is used, and compiling with a symbol that has no address fails unless ignoring was requested. An immutable set during deployment reads back with that exact value in later transactions, separately for every name.',
  ['programs', 'configurations', 'histories'], 'programs over several symbols and immutables with similar names, any addresses and values, used in any context',
  'tests use one symbol and one immutable',
  CORE, [('linker symbols', 'src/yul2ir/transform.rs, src/yul2ir/config.rs'), ('immutables', 'src/yul2ir/yul_instruction.rs')], 'behaviour of the compiled contract, compile result',
  ('generated programs and symbol tables, compiled and compared with a reference interpreter', E2E))
p('P26', 'A contract behaves as its source over whole transaction histories',
  'Deploying a contract and sending it any sequence of transactions gives, transaction by transaction, the outcome, returned data, storage, transient storage, logs and external calls that the source has under Yul and EVM semantics. Failed transactions leave no trace and transient storage does not outlive a transaction.',
  ['histories', 'programs', 'inputs'], 'contracts using all supported builtins together, deployments and up to several transactions with scripted outcomes of external calls',
  'tests send a few calls to fixed contracts',
  CORE + [C + 'chain.c', C + 'evm_memory.c'], [('whole compiler and C library', 'src/yul2ir, stdlib')], 'per-transaction effects of the compiled contract',
  ('model-based testing of histories against a reference interpreter', E2E))
p('P27', 'Compiling is deterministic and ignores layout',
  'The same source and options give byte-identical output every time, in one process or another, and whatever was compiled before. Comments, white space and line ends never change the output.',
  ['programs', 'histories', 'configurations'], 'generated sources in several layouts, compiled repeatedly, in different orders and concurrently',
  'tests compile each source once and do not compare outputs',
  CORE + ['src/yul2ir/utils.rs', 'src/yul2ir/function_deduplicator.rs'], [('compiler', 'src/yul2ir/context.rs'), ('name uniqueness', 'src/yul2ir/var_scope.rs')], 'bytes of the compiled module',
  ('metamorphic testing: repeated and re-laid-out compilations', E2E))
p('P28', 'The command line tool writes what it compiled, or fails and says so',
  'For a valid source the tool exits with success and writes a module that is the one asked for, plus a deployable image that is its length in four big-endian bytes followed by it and that image in hexadecimal; options on the command line act as documented. For an unreadable or ill-formed input it exits with failure and leaves no module that looks fresh.',
  ['inputs', 'configurations', 'fault_sequences'], 'generated sources, option sets, output paths and damaged or missing inputs',
  'no test runs the tool',
  ['src/main.rs', 'src/yul2ir/config.rs', 'src/yul2ir/wasm.rs'], [('tool', 'src/main.rs')], 'exit status and files written',
  ('generated invocations; files compared with each other and with the library result', 'Random search. The real main program is built over the same LLVM layer as P21 and runs as a process.'))
p('P29', 'Call data made by the example encoder is standard ABI encoding',
  'For a signature over integers, addresses, booleans, strings and one-dimensional arrays of these, and values of these types, the call data encoder prints the 4-byte selector of the canonical signature followed by the standard encoding of the arguments. A wrong number of arguments, a damaged signature, an unknown type, a number out of range or a text that is no value of its type makes it fail and print no call data.',
  ['inputs'], 'signatures over static and dynamic types, all values of each type, spoiled invocations',
  'one script compares five fixed calls',
  ['examples/scripts/abi_encode.py'], [('encoder', 'examples/scripts/abi_encode.py')], 'printed call data and exit status',
  ('generated signatures and values against an independent encoder', 'Random search with fast-check over generated command lines; the reference is an encoder written from the ABI specification.'))
p('P30', 'The hex converter writes exactly the bytes of its input',
  'Converting a file to hexadecimal writes two lowercase digits per byte, in order and nothing else, for every content and size, whatever was in the output before. When the input cannot be read or the output cannot be written it does not report success, and a file already there is left as it was.',
  ['inputs', 'fault_sequences'], 'all file contents and sizes, old outputs, missing inputs and directories',
  'no test runs the converter',
  ['examples/scripts/bin_to_hex.py'], [('converter', 'examples/scripts/bin_to_hex.py')], 'text written for a file',
  ('round trip over generated files', 'Random search with fast-check; the script runs as the main program.'))
p('P31', 'Ill-formed programs are rejected, never miscompiled',
  'No module is produced, and an error is given, for a program that uses or assigns an undeclared variable, calls an undeclared function, gives a call the wrong number of arguments, uses a call that gives no value or several where one is needed, gives a declaration or assignment another number of values than variables, declares a name twice in the same scope, repeats a function, parameter or switch case, has break or continue outside a loop, a literal of more than 256 bits, an unknown object, data or linker symbol, or unbalanced brackets. The compiler process itself does not crash on such a program, and the same program without the error is compiled.',
  ['programs'], 'generated well-formed programs with one rule violated at a random place',
  'tests only compile well-formed programs',
  CORE + ['src/yul2ir/errors.rs'], [('static checks', 'src/yul2ir/transform.rs, src/yul2ir/var_scope.rs')], 'compile result for a source',
  ('mutation of generated programs by rule-breaking edits', E2E))
p('P32', 'Contracts of the Solidity compiler keep their behaviour',
  'A contract in the form in which the Solidity compiler emits Yul, unoptimized or optimized, behaves as its source says for every call: dispatch by selector, rejection of short or out-of-type arguments and of value sent to functions that take none, decoding and encoding of integers of any width, addresses, booleans, byte strings and arrays, arithmetic that panics on overflow, packed storage variables, mappings, dynamic arrays, strings in storage, events, error strings, calls to other contracts, constructor arguments and immutables. This holds with all optimizers on and under every other option.',
  ['programs', 'inputs', 'histories', 'configurations'], 'contracts over these features with any types and layout, any call data',
  'tests contain a handful of contracts and call them with fixed arguments, mostly without looking at the result',
  CORE + [C + 'evm_memory.c', C + 'chain.c'], [('types inferred from names and shapes of compiler-generated code', 'src/yul2ir/infer.rs, src/yul2ir/transform.rs'), ('optimized accesses', 'src/yul2ir/yul_instruction.rs, stdlib/evm_memory.c')], 'per-transaction effects of the compiled contract',
  ('grammar-based generation of Solidity-shaped contracts, compiled and compared with a reference interpreter over call histories', E2E + ' A function named like a token transfer with three parameters and another body is refused with all optimizers, which is intended; such names are left out.'))
