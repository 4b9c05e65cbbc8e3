import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state or [],observe_at=observe,hook_needed=hook)))
T="The two tests that build here sample remove_comments on two strings; the project's own compiler tests need LLVM bindings and a VM that are absent, and each samples a handful of values. "
p("C01","Parsing yields exactly the program that was written",
 "For every Yul object in the supported grammar, the parser returns a tree with exactly the written objects, data segments, statements, expressions and literals, in the written order and nesting, whatever white space or comments separate the tokens. Text that is not a Yul object of that grammar is rejected with an error instead of being parsed as something else.",
 ["programs","inputs"],"all syntax trees up to a size bound over a small alphabet of names and literals, in several spacings; all single-token deletions, duplications and substitutions of them",
 T+"No test compares a parsed tree with what was written; trees are nested without bound.",
 ["src/yul.lalrpop","src/yul2ir/ast.rs"],[("grammar productions","src/yul.lalrpop"),("AST node types","src/yul2ir/ast.rs")],["AST returned by the object parser","parse error"])
p("C02","Removing comments changes nothing but comments",
 "Comment removal deletes exactly the line comments (keeping their line break) and the block comments of a source, and leaves every other character, including comment markers inside double-quoted strings, unchanged and in order. It always terminates and never swallows text after the end of a comment.",
 ["inputs"],"all texts up to a length bound over the alphabet { / * \" \\ newline letter space }, and all concatenations of comment/string/code fragments up to a depth",
 "Two unit tests cover one long fixed input each; the comment scanner is a state machine whose corner cases (stars before the slash, quotes in comments, slashes in strings, escapes, end of input) need every short string.",
 ["src/yul2ir/utils.rs","src/main.rs"],[("remove_comments state machine","src/yul2ir/utils.rs"),("use before parsing","src/main.rs")],["returned text"])
p("C03","Literals denote exactly the written bytes and numbers",
 "A string literal denotes the bytes its escapes spell (backslash-quote, double backslash, \\n, \\t, \\xNN up to 7F, \\u{NNNN}, a gap of white space between backslashes), a decimal or hexadecimal literal denotes its full 256-bit value, and a hex data literal denotes exactly its bytes. A literal that cannot be represented is rejected; it is never silently replaced by different content.",
 ["inputs"],"all escape sequences, in pairs, at string lengths 0..33; all decimal and hexadecimal literals at the bit-width boundaries up to 256 bits, with leading zeros and mixed case, in every syntactic position",
 T+"No test unescapes strings at all; boundary widths (31/32/63/64/127/255/256 bits) are not tried per position.",
 ["src/yul2ir/utils.rs","src/yul.lalrpop","src/yul2ir/transform.rs"],[("string unescaping","src/yul2ir/utils.rs"),("literal tokens","src/yul.lalrpop"),("literal lowering","src/yul2ir/transform.rs")],["unescaped string","parsed literal text","word returned by the compiled contract"])
p("C04","Arithmetic builtins agree with the EVM on every operand",
 "In a compiled contract add, sub, mul, div, sdiv, mod, smod, exp, addmod, mulmod and signextend return the 256-bit result the EVM defines, including wrap-around, division and modulus by zero, and the signed corner cases. This holds for every way an operand can reach the builtin: literal, variable, calldata, storage, memory or the result of another builtin.",
 ["inputs","programs"],"every pair (triple) of boundary words (0,1,2, powers of two and neighbours at 8/16/31/32/63/64/127/128/160/255, all ones, signed extremes) for every builtin and every combination of operand sources",
 "Tests fix one operand pair and one operand form per builtin; the compiler keeps values as 32-bit, 64-bit, 256-bit or byte-array forms and converts lazily, so errors hide in particular combinations.",
 ["src/yul2ir/instruction.rs","src/yul2ir/context.rs","src/yul2ir/transform.rs","stdlib/chain.c","stdlib/chain_math.c"],
 [("builtin lowering","src/yul2ir/instruction.rs"),("type inference and casts","src/yul2ir/infer.rs; src/yul2ir/context.rs"),("runtime exp, signextend, addmod, mulmod","stdlib/chain.c")],["returned words"])
p("C05","Comparison, bitwise and shift builtins agree with the EVM",
 "In a compiled contract lt, gt, slt, sgt, eq, iszero, and, or, xor, not, byte, shl, shr and sar return the 256-bit result the EVM defines, including shift amounts and byte indexes of 256 or more and of any width. This holds for every way an operand can reach the builtin: literal, variable, calldata, storage, memory or the result of another builtin.",
 ["inputs","programs"],"every pair of boundary words for every builtin and every combination of operand sources; every shift amount 0..256 and beyond 2^32 and 2^64",
 "Tests fix a few operand pairs; the code has separate paths per operand form, constant folding and special-cased idioms (selector load, address mask, zero compare).",
 ["src/yul2ir/instruction.rs","src/yul2ir/context.rs","stdlib/chain_math.c","stdlib/chain.c"],[("builtin lowering","src/yul2ir/instruction.rs"),("byte-array forms","stdlib/chain_math.c")],["returned words"])
p("C06","Runtime word primitives compute the 256-bit function they name",
 "Each word primitive of the runtime library (comparison, bitwise, shift, addition on big-endian words; shifts, exponent and sign extension on integers; conversions between integers of 32, 64 and 256 bits and 32-byte big-endian words; memory fill, copy and compare; decimal formatting) returns the mathematically defined result for every input and changes no memory other than its result. Converting a value to big-endian bytes and back gives the value.",
 ["inputs"],"every pair of words of a boundary set built from single-byte, single-bit and mixed patterns, every shift amount -1..300, every length and alignment up to a bound, in the debug and the release build of the library",
 "No test calls the primitives; compiled-contract tests reach a few of them with single values.",
 ["stdlib/chain_math.c","stdlib/chain.c","stdlib/stdlib.c","stdlib/utils.c"],[("word primitives","stdlib/chain_math.c"),("conversions, exp, sign extension","stdlib/chain.c"),("fill, copy, compare","stdlib/stdlib.c")],["result buffers and surrounding memory"])
p("C07","EVM memory behaves as one zero-initialised byte array",
 "Through any sequence of memory builtins (mstore, mstore8, mload, mcopy, calldatacopy, returndatacopy, codecopy/datacopy, keccak256, return), each read returns the bytes last written at that address and zero where nothing was written, for every offset, width, overlap and amount of growth, in small and large contracts. Memory writes never alter storage, variables, the call data or the contract's own data.",
 ["histories","inputs"],"all sequences of memory operations up to a depth over an alphabet of offsets (aligned, unaligned, overlapping, at and beyond the 16 KiB and 64 KiB boundaries), lengths and values, against a byte-array model",
 "Tests run single stores and loads at small offsets; growth, overlap and aliasing need histories.",
 ["stdlib/evm_memory.c","stdlib/chain.c","src/yul2ir/instruction.rs"],[("memory growth","stdlib/evm_memory.c"),("store/load/copy wrappers","stdlib/chain.c"),("memory builtin lowering","src/yul2ir/instruction.rs")],["bytes returned, hashed or logged"],
 [dict(name="EVM memory region",meaning="base, size and capacity of the linear-memory area that holds EVM memory",where="stdlib/evm_memory.c")])
p("C08","Call data is read exactly, zero-padded past its end",
 "calldataload, calldatacopy, calldatasize and the function-selector read return exactly the transaction's call data bytes, with zero for every byte past its end, for every size, offset and length and in any order and repetition of the reads. Reading call data changes nothing else.",
 ["inputs","histories"],"every call data size 0..140 (around the 4, 32, 64 and 100 byte thresholds) with every offset 0..size+40 and extreme offsets, every copy length of a set, in all orders of two or three reads",
 "Tests use well-formed ABI call data; the reader caches call data below a size threshold and special-cases the selector, so size, offset and order matter.",
 ["stdlib/chain.c","src/yul2ir/instruction.rs","src/yul2ir/transform.rs"],[("call data cache and loads","stdlib/chain.c"),("selector idiom","src/yul2ir/instruction.rs")],["words and bytes returned","host call data requests"])
p("C09","Storage and transient storage are exact word maps",
 "sload and tload return the last value stored under the same 256-bit key by sstore and tstore, zero if none, and never a value stored under another key or in the other space, for every key and value and in either storage byte-order mode. The host sees every write once, in program order, with the exact key and value.",
 ["histories","inputs","configurations"],"all sequences up to a depth of sload/sstore/tload/tstore over boundary keys and values, with keys and values as literals, variables, hashes and call data, in default, little-endian-host, u256 and bytes32 modes",
 "Tests store and load one small slot; there are eight load/store variants chosen by operand form and option.",
 ["stdlib/chain.c","src/yul2ir/instruction.rs"],[("storage wrappers","stdlib/chain.c"),("choice of variant","src/yul2ir/instruction.rs")],["host storage calls","words returned"])
p("C10","Immutables set at deployment are what later calls load",
 "Each immutable name keeps its own value: loadimmutable returns exactly the 256-bit value that setimmutable stored under that name, names never share a value, and setting one leaves ordinary storage slots and other immutables unchanged.",
 ["histories","inputs"],"all orders of setting and loading up to three immutables from a set of names and boundary values, with interleaved storage writes",
 "Tests set one immutable and read it back.",
 ["stdlib/chain.c","src/yul2ir/instruction.rs"],[("setimmutable/loadimmutable storage","stdlib/chain.c"),("name to key","src/yul2ir/instruction.rs")],["words returned","host storage calls"])
p("C11","External calls pass and return exactly the right bytes",
 "call, callcode, delegatecall and staticcall hand the host exactly the given gas, target, value and input bytes; on a successful call they return 1 and fill the output area with the first bytes of the return data, never more than either length, leaving the rest of memory unchanged. A failed call whose return data fills the output area returns 0 with that data there; only one with less return data may end the caller with a revert instead. Afterwards returndatasize and returndatacopy expose exactly the callee's return data.",
 ["inputs","histories","fault_sequences"],"every kind x callee outcome (success, failure, revert) x output length x return data length over boundary lengths x target (ordinary, precompile, neighbours), and sequences of two or three calls",
 "Tests make one successful call with matching lengths; failures and length mismatches are separate paths.",
 ["stdlib/chain.c","src/yul2ir/instruction.rs"],[("call wrappers and output copy","stdlib/chain.c"),("call lowering","src/yul2ir/instruction.rs")],["host call arguments","memory after the call","returned status"])
p("C12","Contract creation and code access use exactly the right bytes",
 "create and create2 hand the host the exact value, salt, creation code and constructor arguments found in memory, and return the address the host gives. codesize, codecopy, datasize, dataoffset, datacopy, extcodesize, extcodecopy and extcodehash give the exact code, embedded object, data and constructor-argument bytes, for every offset and length within them.",
 ["inputs","histories","programs"],"all object trees up to a depth with data segments and sub-contracts of boundary sizes; every in-range offset and length of a boundary set of code size and argument size",
 "Tests create one contract without inspecting the bytes handed to the host.",
 ["stdlib/chain.c","src/yul2ir/instruction.rs","src/yul2ir/context.rs","src/yul2ir/utils.rs"],[("create wrappers, codecopy","stdlib/chain.c"),("embedding of sub-objects and data","src/yul2ir/context.rs"),("length-prefixed sub-contract","src/yul2ir/utils.rs")],["host create arguments","bytes copied"])
p("C13","Halting, logging and hashing expose exactly the addressed bytes",
 "return and revert end the transaction with exactly the addressed memory bytes, stop ends it with none, invalid and selfdestruct end it, and nothing after them has any effect; a function body that ends without them ends the transaction normally. log0 to log4 emit exactly the addressed bytes and the topics in order, and keccak256 returns the hash of exactly the addressed bytes.",
 ["inputs","programs"],"every builtin x memory offset and length of a boundary set x topic words in every operand form, at top level and inside functions, loops, switches and nested calls",
 "Tests check one event and one revert; argument order and byte order per topic form are not enumerated.",
 ["stdlib/chain.c","src/yul2ir/instruction.rs"],[("halt, log and hash wrappers","stdlib/chain.c"),("lowering and block termination","src/yul2ir/instruction.rs")],["halt kind and data","host log calls"])
p("C14","Environment builtins return the host's values at full width",
 "address, caller, origin, callvalue, balance, selfbalance, gas, gasprice, gaslimit, timestamp, number, blockhash, coinbase, prevrandao/difficulty, chainid, basefee, blobbasefee and the external-code queries return the host's value as the 256-bit word the EVM defines, for every value the host can give. Reading one never alters another value or memory.",
 ["inputs","histories"],"every builtin x boundary values of its host field (all-zero, all-ones, each single byte set), every ordered pair of builtins, in u256 and bytes32 modes",
 "Tests read each once with a fixed mock value, mostly small.",
 ["stdlib/chain.c","src/yul2ir/instruction.rs"],[("environment wrappers","stdlib/chain.c")],["words returned"])
p("C15","Runtime word slots never overlap each other or EVM memory",
 "Every word slot the runtime allocates is 32 bytes that no other live slot, no EVM memory byte and no static data shares, for any number of allocations interleaved with any memory growth, in small and large contracts. A value held in a slot keeps its content while other slots and EVM memory are written.",
 ["histories"],"all interleavings, up to a depth, of blocks of word-slot allocations (1, to the static limit, to and past page limits) with EVM memory growth to offsets below, at and above 16 KiB and 64 KiB multiples",
 "No test allocates past the static pool or grows memory past its initial area.",
 ["stdlib/chain.c","stdlib/evm_memory.c"],[("slot allocator","stdlib/chain.c"),("memory growth","stdlib/evm_memory.c")],["slot addresses and contents"],
 [dict(name="slot pool",meaning="static pool of word slots, then grown pages",where="stdlib/chain.c")])
p("C16","The ERC-20 transfer shortcut equals the code it replaces",
 "The built-in token transfer used when all optimizers are enabled stands in only for a function that is the standard transfer, and has, for every sender, recipient, amount and balance, the same storage writes, event and revert data as the Yul function it replaces, including zero addresses, insufficient balance, self-transfer and overflow.",
 ["inputs","histories"],"all combinations of boundary addresses, amounts and balances (including from = to), and sequences of two transfers, against the Yul function run by the reference interpreter and by the compiler without the option",
 "Tests make one transfer with ordinary values.",
 ["stdlib/chain.c","src/yul2ir/transform.rs","src/yul2ir/instruction.rs"],[("transfer shortcut","stdlib/chain.c"),("pattern recognition","src/yul2ir/transform.rs")],["host storage and log calls","revert data"])
p("C17","Control flow runs exactly the statements Yul prescribes",
 "In a compiled contract if, switch, for, break, continue, leave and nested blocks execute exactly the statements, in the order and number of times that the Yul specification prescribes, with conditions and case values compared over all 256 bits.",
 ["programs","inputs"],"all programs up to a size bound over a grammar of assignments, nested if/switch/for/block, break, continue and leave, each run on boundary inputs, against a reference interpreter",
 "Tests use a few fixed loops and switches; interactions of nesting and early exit are combinatorial.",
 ["src/yul2ir/transform.rs","src/yul2ir/context.rs"],[("statement lowering","src/yul2ir/transform.rs")],["execution trace written to storage, returned words"])
p("C18","Function calls bind arguments and results exactly",
 "A user-defined function receives its arguments by value in order and returns its result variables in order, zero if never assigned; this holds for any number of parameters and results, nesting, recursion, forward references, calls in any argument position, and functions whose bodies are identical or textually similar. Arguments are evaluated in the order Yul prescribes.",
 ["programs","inputs"],"all function signatures up to 3 parameters and 3 results with all call shapes, argument forms and result uses up to a bound, in u256 and bytes32 return modes, against a reference interpreter",
 "Tests cover a few tuples; representation changes at call boundaries depend on mode, arity and operand form.",
 ["src/yul2ir/transform.rs","src/yul2ir/context.rs","src/yul2ir/function_deduplicator.rs","src/yul2ir/infer.rs"],[("function definition and call lowering","src/yul2ir/transform.rs"),("deduplication","src/yul2ir/function_deduplicator.rs")],["returned words"])
p("C19","Variables keep the full last value assigned and stay in scope",
 "A variable always reads as the last 256-bit value assigned to it, whatever the size or form of its initializer, and as zero if declared without one; copies are independent. An inner block's variables neither change nor outlive their block, and outer variables assigned inside blocks, loops or branches keep the assigned value.",
 ["programs","inputs"],"all sequences up to a depth of declarations, copies, assignments and block entries/exits over variables with initializers of every form (none, literals of each width, bool, string, call data, hash, environment) and values of every width",
 "Tests redefine a few variables of one width; the compiler picks a narrow type from the initializer.",
 ["src/yul2ir/transform.rs","src/yul2ir/infer.rs","src/yul2ir/var_scope.rs","src/yul2ir/context.rs"],[("type inference","src/yul2ir/infer.rs"),("scopes","src/yul2ir/var_scope.rs")],["returned words"])
p("C20","Behaviour does not depend on optimization options",
 "The same contract compiled at any optimization level, with or without debug, size minimization, optimizers disabled or the byte-array return mode, and (storage byte order aside) with the little-endian storage host, behaves identically on every transaction: same halt, data, storage writes, logs and external calls. Every option combination accepted compiles it.",
 ["configurations","programs","inputs"],"all combinations of the documented compile options over a corpus exercising every builtin and statement form and every small program of a grammar, each run on boundary inputs",
 "Tests run one configuration; the release pipeline differs from the tested one (debug, no inlining, no LLVM optimization).",
 ["src/yul2ir/config.rs","src/yul2ir/context.rs","src/yul2ir/wasm.rs","src/yul2ir/transform.rs"],[("options","src/yul2ir/config.rs"),("pass pipeline and linking","src/yul2ir/context.rs; src/yul2ir/wasm.rs")],["halt, data, host calls"])
p("C21","The compiler's output files agree and failures exit non-zero",
 "When the command line tool succeeds it exits 0 and leaves a loadable wasm module with the deploy entry point and, for a contract with a runtime object, the call entry point, a .cbin that is its 4-byte big-endian length followed by exactly that module, and a .cbin.hex that is the lower-case hex of the .cbin; linker symbols resolve to exactly the given address. When the input is unreadable, does not parse, uses an undefined name or passes a wrong number of arguments, or when an option is invalid, it exits non-zero and leaves no output.",
 ["configurations","inputs","fault_sequences"],"all combinations of documented options and output path forms over a corpus of contracts, and every fault of a list (missing input, malformed Yul, unknown option value, missing symbol)",
 "No test runs the command line tool.",
 ["src/main.rs","src/yul2ir/utils.rs","src/yul2ir/wasm.rs","src/yul2ir/instruction.rs"],[("command line","src/main.rs"),("linking","src/yul2ir/wasm.rs")],["exit status and files"])
p("C22","The ABI encoder script emits the canonical calldata or fails",
 "For a function signature and textual arguments the encoder prints 0x followed by the 4-byte selector of that signature and the canonical ABI encoding of the arguments, for every supported type and arity, including negative, maximal, empty and array values. On a wrong argument count or a value the type cannot hold it prints no calldata and exits non-zero.",
 ["inputs"],"all signatures up to three parameters over the elementary types and dynamic arrays of them, each with every boundary value of its type and with out-of-range values",
 "The one shell script checks six fixed ERC-20 style calls.",
 ["examples/scripts/abi_encode.py"],[("parse_signature, convert_param, main","examples/scripts/abi_encode.py")],["stdout and exit status"])
p("C23","Helper scripts report the true hex, encoding, match and status",
 "The binary-to-hex tools write exactly two lower-case hex digits per input byte, in order, for every file, and never change their input; a failure gives a non-zero exit status. The ABI argument encoder writes exactly the ABI encoding of the arguments it accepts and reports an error for the others. The shell helpers succeed only when the command succeeded and its output matches, exit with the command's failure status otherwise, and extract the last reported result and its address exactly.",
 ["inputs","histories"],"every byte value, lengths 0..300 and at buffer boundaries, existing and missing paths; every combination of exit status, output lines and patterns up to a bound; all argument lists over boundary values of the supported types up to a bound",
 "No test covers these helpers.",
 ["examples/scripts/bin_to_hex.py","examples/scripts/abi_encode.py","examples/scripts/common.sh","tools/build_utils.sh","tools/forge_test_utils.sh"],[("binary_to_hex_file","examples/scripts/bin_to_hex.py"),("encode","examples/scripts/abi_encode.py"),("run_cmd_and_grep, grep_output_last_result_*","examples/scripts/common.sh"),("build and test helpers","tools/build_utils.sh; tools/forge_test_utils.sh")],["files, stdout and exit status"])
p("C24","Compiling the same source twice gives identical bytes",
 "Compiling the same source with the same options always produces byte-identical output files: whatever the iteration order of the compiler's hash containers, after whatever earlier compilations in the process (failed ones included), and in any process, directory and environment.",
 ["histories","configurations"],"all iteration orders of the compiler's hash containers within bounds, all short sequences of compilations in one process, all combinations of directories, path forms and environments of a set",
 "A test compiles once; nondeterminism shows only between processes.",
 ["src/yul2ir/context.rs","src/yul2ir/function_deduplicator.rs","src/yul2ir/usage.rs","src/yul2ir/wasm.rs"],[("hash maps and temporary names in code generation","src/yul2ir/context.rs; src/yul2ir/wasm.rs")],["output bytes"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
