prop('P01', 'Every builtin overload is bound to a native function of matching ABI types',
     'For every overload in the function registry, the native function it is bound to takes exactly the parameters the overload '
     'declares (count, order, width, signedness, integer or floating kind, string and list struct element type, pointer, and the hidden '
     'context argument when one is injected) and returns exactly the declared result type; no overload is registered twice. '
     'So no call from generated code reinterprets, truncates or misaligns an argument or result.',
     ['inputs', 'configurations'], 'all registered overloads',
     'About 1800 overloads are registered; tests call a fraction, and a width or signedness mismatch on x86-64 only shows for particular values.',
     ['src/function', 'src/function_registry.cc', 'include/function_registry.h'],
     [('registration', 'src/function'), ('registration templates', 'include/function_registry.h')],
     technique='abstract interpretation of the registry initialisation; type comparison of the bound functions in the resolved program',
     note='every registered overload; x86-64 SysV aggregate passing assumed')
prop('P02', 'Every documented builtin overload exists with the documented result type',
     'Each overload listed in doc/function.md is registered under that name and exact parameter types with exactly the documented result type; '
     'every overload of a function that needs the execution context is callable both with and without the explicit context argument, '
     'both forms reaching the same native function with the same result type.',
     ['programs'], 'all documented overloads (about 1000) and all context-taking overloads',
     'Tests call a fraction of the overload families; a family missing one element type is not noticed.',
     ['src/function', 'src/function_registry.cc', 'include/function_registry.h', 'doc/function.md'],
     [('registration', 'src/function'), ('documentation', 'doc/function.md')],
     technique='abstract interpretation of the registry initialisation; comparison with the documented overload list',
     note='doc/function.md is the oracle')
prop('P08', 'Every expression form has exactly the documented static type rule',
     'For every node kind, operator and combination of operand types, compilation accepts the expression exactly when the '
     'language rules allow that combination and then gives it the type the rules name (promotion for arithmetic, 8-bit '
     'unsigned for comparisons and logic, left type for shifts, and so on). Ill-typed expressions, bad constants '
     '(constant zero divisors, heterogeneous or unsupported literals) and calls with no matching overload are rejected '
     'with an error status, never compiled.',
     ['programs', 'inputs'], 'all node kinds x all operators x all operand type combinations x all literal kinds',
     'Tests sample a few dozen operand type pairs out of more than ten thousand rows.',
     ['src/validator.cc', 'src/validator.h', 'include/exec_node.h', 'src/exec_node.cc'],
     [('type rule visitors', 'src/validator.cc'), ('promotion helper', 'include/type.h')],
     technique='abstract interpretation of the typed AST over the finite domain of value types',
     note='every row of the type-rule table is evaluated on the resolved AST with opaque typed children; std containers and '
          'diagnostics are modelled')
prop('P10', 'Operators compute what they denote for every numeric operand type',
     'For every operator and every allowed pair of numeric operand types, the generated code evaluates the operands once, '
     'left to right, converts them to the result or promoted type with the conversion their own signedness demands, and '
     'applies the signed, unsigned or floating form of the operation that the operand type calls for; logical operators '
     'evaluate the right operand only when the left one does not decide. Results are independent of how the operand was computed.',
     ['programs', 'inputs'], 'all operators x all well-typed numeric operand type pairs, arbitrary operand values',
     'Tests check a handful of values per operator; a wrong signedness or predicate for one type pair goes unnoticed.',
     ['src/codegen/binary_op_codegen.cc', 'src/codegen/unary_op_codegen.cc', 'src/codegen/codegen.cc'],
     [('operator lowering', 'src/codegen')],
     technique='abstract interpretation of the code generator over opaque operands; resulting IR term compared with the denotation',
     note='all operator x type rows; LLVM instruction semantics assumed')
prop('P11', 'Conditionals evaluate exactly the selected arm and yield its converted value',
     'For if, switch, when blocks and statement blocks: conditions are evaluated in source order until one is true (non-zero), '
     'exactly the selected arm is evaluated, nothing else is, and the result is that arm\'s value converted to the type of the '
     'whole expression. This holds for every condition type, arm type combination, number of arms and nesting, and the code '
     'emitted is always well formed.',
     ['programs', 'inputs'], 'all condition types x all arm types x any number of arms x any nesting of control flow in operands',
     'Tests exercise a few shapes; a wrong predecessor, arm order or conversion shows only for particular nestings and types.',
     ['src/codegen/if_codegen.cc', 'src/codegen/switch_codegen.cc', 'src/codegen/if_block_codegen.cc', 'src/codegen/no_op_codegen.cc'],
     [('conditional lowering', 'src/codegen')],
     technique='abstract interpretation of the code generator over opaque operands; path sets of the emitted control-flow graph compared with the construct\'s meaning',
     note='operands opaque and ending in arbitrary blocks; arm count enumerated up to 6')
prop('P12', 'Variables follow the scoping, constness and type rules on every path',
     'A program is accepted exactly when every reference names a variable visible at that point, let-constants are never reassigned, '
     'existing variables are never redeclared with let, and assignments keep the type; branch bodies and isolated groups get their own scope. '
     'In an accepted program every use sees the value of the last assignment executed on the path taken, where assignments in a '
     'branch to a variable visible outside it persist after the branch and all other names stay local.',
     ['programs', 'inputs'], 'all programs built from assignments, constants, references, groups and nested branches',
     'Tests cover a handful of programs; scoping errors need particular nestings of branches, constants and isolated groups.',
     ['src/validator.cc', 'src/scope_stack.h', 'src/codegen/no_op_codegen.cc', 'src/codegen/if_block_codegen.cc', 'src/codegen/ref_node_codegen.cc'],
     [('scope stack', 'src/scope_stack.h'), ('variable rules', 'src/validator.cc')],
     state=[('scope stack', 'innermost-last list of name bindings', 'src/scope_stack.h')],
     technique='abstract interpretation of validator and code generator on a family of program skeletons over opaque expressions; per-path SSA values compared with a direct reading',
     note='about 4400 skeletons (nesting <= 3)')
prop('P15', 'Inline scalar builtins denote the documented function for every operand type',
     'Every builtin that is expanded inline by code generation (the math functions exp..trunc, frac, pow, abs, min, max, the scalar CastXxx '
     'conversions, Len, StringLen, Truncate) computes, for every registered operand type, the documented function on the operand values in argument '
     'order: integer operands are widened by their own signedness, the signed, unsigned or floating form is chosen by the operand type, '
     'and the value produced has the declared result type.',
     ['inputs'], 'all inline builtin overloads, arbitrary operand values',
     'Tests call each builtin with a couple of values of a couple of types; a wrong sign treatment shows only for large or negative operands.',
     ['src/function', 'src/codegen/function_codegen.cc'],
     [('inline builtins', 'src/function')],
     technique='abstract interpretation of the code-generation callbacks over opaque operands; emitted IR term compared with the denotation',
     note='198 overloads; LLVM intrinsic semantics assumed')
prop('P16', 'Every call reaches exactly the overload that was written',
     'A call in an expression (including the operators on strings and lists and the builtins expanded to several calls) executes exactly '
     'the native function registered for that name and those exact argument types, with the written arguments in order plus the '
     'execution context where the overload takes it, and yields its result; the symbol, declared type and native address agree. '
     'Registering the same name and parameter types again is rejected unless overriding is requested, an override fully replaces '
     'the old entry, and the optimizer is never promised more about a function than its registration states.',
     ['programs', 'configurations'], 'all registered native overloads in both calling forms; registration histories of each registration kind',
     'Tests call a fraction of the overloads; symbol mix-ups between overloads or a stale entry after an override show only for particular signatures.',
     ['src/codegen/function_codegen.cc', 'src/codegen/binary_op_codegen.cc', 'src/function_registry.cc', 'include/function_registry.h', 'src/function'],
     [('call lowering', 'src/codegen/function_codegen.cc'), ('symbol mapping', 'src/function_registry.cc')],
     technique='abstract interpretation of registry construction, symbol mapping and call lowering; resolved call terms compared with the overload table',
     note='all builtin overloads; user registrations on small registries of every kind')
prop('P17', 'Execution calls exactly the compiled entry, boxes its result, reports errors',
     'For every result type, executing a compiled program on either engine (all Execute, ExecuteAt and ExecuteAll overloads) calls exactly the compiled entry once, '
     'with the caller\'s argument pointer, an execution context (the caller\'s when one is given) and, in the raw forms, the caller\'s result pointer, through a function '
     'type matching the entry; the entry returns the value of its expression; the boxed result is exactly that value in the variant alternative of the '
     'type, copied before the memory it lives in is released (text and list contents included, embedded zero bytes too). Errors recorded at run time become a '
     'RuntimeError carrying every recorded message, otherwise the status is OK; a caller\'s context is left cleared (no errors, arena reset) on '
     'every path. ExecuteAll runs every entry once in order even when earlier ones fail, keeps result i for entry i and fails exactly when some entry failed. '
     'With nothing compiled or an index out of range nothing is called and an error is returned.',
     ['inputs', 'schedules'], 'all result types x all execute overloads x all outcomes of each entry',
     'Tests execute a few result types per overload and hardly ever combine error paths with reuse of the same context.',
     ['src/exec_engine.cc', 'src/batch_exec_engine.cc', 'src/execute_dispatch.h', 'src/jit_core.cc', 'include/exec_options.h'],
     [('execute', 'src/exec_engine.cc'), ('batch execute', 'src/batch_exec_engine.cc'), ('dispatch', 'src/execute_dispatch.h')],
     technique='abstract interpretation of the engines over a JIT model with opaque arguments, results and error outcomes; event protocol checked on every path',
     note='list and string results of length 0 and 2, batches of up to 3 entries')
prop('P18', 'An engine runs its last good program or nothing, whatever failed',
     'After any sequence of Compile and LoadCompiled calls on either engine, each of which may succeed or fail at any internal step, the engine executes exactly the '
     'program of the last successful call with that program\'s result types (and saves exactly its object code, when object capture is enabled and it was compiled), '
     'or nothing at all: a failed Compile leaves no executable program (a batch Compile of no expressions is refused and changes nothing), a failed LoadCompiled leaves the previous program intact and usable, and no entry ever '
     'points into code whose owner has been released. Artifacts that are truncated, foreign or of the other engine kind are refused.',
     ['histories', 'fault_sequences'], 'all sequences of up to three operations with a failure at every fallible step',
     'Tests cover one or two failing steps; failures inside JIT creation, symbol definition, linking or lookup cannot be provoked from a test.',
     ['src/exec_engine.cc', 'src/batch_exec_engine.cc', 'src/jit_core.cc', 'src/compiled_artifact.cc'],
     [('compile and load', 'src/exec_engine.cc'), ('batch compile and load', 'src/batch_exec_engine.cc'), ('build and link', 'src/jit_core.cc')],
     state=[('engine', 'empty, or one program: entry pointers, result types, owning JIT, captured object bytes', 'src/jit_core.cc')],
     technique='abstract interpretation of operation sequences over a JIT model with a fault choice at every fallible step; state compared with a two-state machine',
     note='JIT library calls modelled; object code opaque')
KT = 'abstract interpretation of the native functions on opaque arguments (trace partitioning over comparisons), term comparison with the documented meaning'
KB = 'lists of 0 to 4 opaque elements, longer ones (8 to 33) with constant or position-only data; SIMD variants (HAS_XSIMD) are not built here'
KF = ['src/function/list_arithmetic.cc', 'src/function/list_comparison.cc', 'src/function/list_basic.cc', 'src/function/list_group.cc',
      'src/function/list_indexing.cc', 'src/function/string_function_init.cc', 'src/function/murmurhash3.cc']
prop('P03', 'Element-wise list functions compute the documented value at every position',
     'ListAdd, ListSub, ListMul, ListDiv, ListMod, the list bitwise functions, list mathematics (ListExp, ListLog.., ListCeil..), ListMin, ListMax, '
     'IfLarge and the other IfXxx functions, IfByBitmap, GenXxxBitmap, FilterByBitmap and the numeric CastXxxList conversions return, for every '
     'registered element type and both list-list and list-scalar forms, a list of the documented length whose element i is the documented function of '
     'the operands\' elements i only (bit i mod 8 of byte i / 8 for bitmaps, unused bits of the last byte zero; FilterByBitmap keeps the selected '
     'elements in order), with the element type\'s own signedness, width and rounding. Empty lists give empty results. Division by zero and INT_MIN / -1 are excluded.',
     ['inputs'], 'all registered overloads, all element values, list lengths 0 to 3, 8, 9, 16, 17, 20',
     'More than 500 overloads, each a separate template instance and registration; tests run most of them on one short list, so signedness, tail and block-boundary errors hide.',
     KF[:3], [('arithmetic', KF[0]), ('conditionals and bitmaps', KF[1]), ('casts', KF[2])], technique=KT, note=KB)
prop('P04', 'Native list and string functions stay inside their arguments and results',
     'No native builtin function, on any arguments that are valid lists and strings (including empty ones with a null pointer, bitmaps, counts, indices '
     'and group ids of any value, and lengths up to 2^32-1), reads or writes outside its arguments and the memory it allocated, reads memory nobody wrote, '
     'returns (also when it reports an error) a result with unwritten elements or pointing to local storage, throws, or runs on without end; the memory it requests covers the result it writes, and lengths '
     'and positions are never held in a type that cannot represent them.',
     ['inputs'], 'all registered native functions, lengths 0 to 33, 300 and those the code names evaluated exactly, stated lengths up to 2^32-1 for the size computations',
     'Out-of-bounds accesses of a few bytes rarely fail a test, and lists near 2^32 elements are never tested.',
     KF, [('list functions', 'src/function'), ('allocation', 'include/arena.h')],
     technique='abstract interpretation of the native functions over an exact memory model (bounds, initialisation, allocation sizes); width analysis of length-carrying variables',
     note=KB + '; arena allocation itself is a stand-in returning a block of the requested size')
prop('P05', 'Native functions never modify their arguments',
     'No native builtin function writes to the elements, characters or descriptors of its arguments: lists and strings handed to a call (caller records, '
     'constants of the program, results used elsewhere in the expression) hold the same values after every call, also when the call reports an error.',
     ['inputs'], 'all registered native functions and argument scenarios',
     'A test looks at the result of a call, hardly ever at its inputs afterwards.',
     KF, [('list functions', 'src/function')],
     technique='abstract interpretation of the native functions; effect check on argument memory after every partition', note=KB)
prop('P06', 'Invalid arguments are reported at run time, valid ones never are',
     'A native builtin given lists of different lengths where the documentation requires equal ones, a bitmap that is too short (IfByBitmap) or whose '
     'length, set bits or count argument contradict the list (FilterByBitmap), a group id not below the group count, or operands whose concatenation or cross '
     'product exceeds 2^32-1 elements or characters, records an error in the execution context; on all other arguments it records none.',
     ['inputs'], 'all registered native functions that document an argument restriction, all argument scenarios',
     'Only a few of the several hundred overloads are tested with mismatched arguments, and oversized results are never tested.',
     KF, [('length checks', 'src/function'), ('error recording', 'include/exec_options.h')],
     technique='abstract interpretation of the native functions on valid and invalid argument shapes; error record inspected on every path', note=KB)
prop('P07', 'Only arguments of functions that really commute are ever exchanged',
     'The function passes that the engine adds to the optimizer pipeline change nothing but the order of the first two arguments of a call, only when both have the '
     'same type and the callee was registered as commutative; and every builtin registered as commutative gives the same result (or error) for exchanged arguments.',
     ['programs', 'inputs', 'configurations'], 'all call shapes up to 4 arguments, all builtins registered as commutative, all element values',
     'Whether arguments are exchanged depends on addresses chosen at run time, so a wrong registration or a wrong exchange fails intermittently.',
     ['src/jit_core.cc', 'src/function_registry.cc', 'src/function'], [('canonicalizer', 'src/jit_core.cc'), ('attributes', 'src/function_registry.cc')],
     technique='abstract interpretation of the optimizer passes on call instructions and of the commutative functions in both argument orders; term comparison',
     note=KB)
prop('P09', 'Aggregates, orderings, groupings and hashes compute the documented result',
     'Sum, Max, Min, Avg, Median, SortedMedian, CountDistinct, Unique, SortAsc, SortDesc, CountBits, MurmurHash3X8632, GroupIndex, GroupCount, GroupKeys and '
     'GroupSum/Max/Min/Avg return for every registered element type exactly the documented result: sums in the 64-bit accumulator of the type\'s signedness or in f64, '
     'averages and medians in f64, first-appearance order for Unique, group ids and keys, one entry per group, MurmurHash3_x86_32 of the element bytes with the fixed seed, '
     'and the documented results for empty lists. NaN elements and groups without members are excluded.',
     ['inputs'], 'all registered overloads, all element values (all orderings and equality patterns of up to 3 or 4 elements), list lengths 0 to 5, 8, 9, 17, 33',
     'Tests use one small list per function; accumulator width, ties, negative or unsigned extremes and infinities hide.',
     [KF[2], KF[3], KF[6]], [('aggregates', KF[2]), ('grouping', KF[3]), ('hash', KF[6])], technique=KT, note=KB)
prop('P40', 'String functions build exactly the documented strings',
     'StringConcat, StringCmp (sign), StringContains, CrossJoin, ZipConcat, ListConcat of strings, CastString, CastStringList and the CastXxx / CastXxxList conversions from strings treat '
     'strings as byte sequences of explicit length (unsigned byte order, embedded zeros allowed): results contain exactly the documented bytes in the documented order and '
     'number; numbers are formatted and parsed in base 10 with their own type over exactly the string\'s bytes, unparsable text giving 0.',
     ['inputs'], 'all registered overloads, all byte values, string lengths 0 to 3, list lengths 0 to 3',
     'Tests use printable words; lengths of zero, shared prefixes, zero bytes and multi-element joins are sampled at most once.',
     [KF[2], KF[5]], [('strings', KF[5]), ('string lists', KF[2])], technique=KT, note='std::to_chars / from_chars opaque; ' + KB)
prop('P41', 'Searches, lookups, gathers and joins return exactly the documented positions',
     'Find, FindSorted, the list lookup functions, ListCompactPositions, ListCompactIndex, ListGather, Bucketize, GetAt, ListConcat and membership tests return for every registered '
     'element type exactly the documented positions or elements: first occurrence, the missing marker 4294967295 for absent values, the default for indices out of range, upper-bound '
     'bucket numbers (NaN in the top bucket), input order preserved. FindSorted and Bucketize are given sorted lists.',
     ['inputs'], 'all registered overloads, all element values (all orderings and equality patterns), list lengths 0 to 3, 8 to 33',
     'Tests use one or two lists per function; boundary positions, duplicates and block-size effects hide.',
     [KF[4], KF[2]], [('indexing', KF[4]), ('concatenation', KF[2])], technique=KT, note=KB)
prop('P14', 'Every constant has exactly its written value, alone or among other constants',
     'A scalar, string or list constant of a program - of any element type, including empty lists, empty strings, strings with embedded zero bytes, infinities, NaN and negative '
     'zero - is materialised in the generated code with exactly its type, length and bit pattern, whatever other constants (equal, similar, differing only in sign of zero, '
     'type, length or order) the same program or batch contains, and shared constants are never written to.',
     ['programs', 'inputs'], 'all constant types, lengths 0 to 4 and 300, opaque and boundary values, all ordered pairs and selected triples of constants in one compilation',
     'Tests use a handful of constants per program; collisions between pooled constants and boundary bit patterns are not sampled.',
     ['src/codegen/const_value_codegen.cc', 'src/codegen/const_list_value_codegen.cc', 'src/codegen/const_global_emit.cc', 'include/function_registry.h'],
     [('constant globals', 'src/codegen/const_global_emit.cc'), ('constant caches', 'include/function_registry.h')],
     technique='abstract interpretation of the code generator on constant nodes; emitted initialisers decoded and compared bit for bit',
     note='list and string lengths 0 to 4 and 300')
prop('P20', 'A saved artifact restores exactly what was saved',
     'Serialising a compiled artifact and deserialising the bytes yields every field unchanged (LLVM version, target triple, CPU name, mode, floating-point mode, result types '
     'in order, object code, extension sections); the bytes follow the documented layout; Save followed by Load on an engine of the same kind and host gives an engine that '
     'executes the same object code with the same result types per entry, for single and batch engines; saving is refused without a compiled program, without '
     'object capture, or into a null output.',
     ['inputs', 'histories'], 'all field lengths from a boundary set up to 70000 bytes with opaque contents, all modes and result types, up to 300 entries and 2 extensions',
     'Tests round-trip one artifact of each kind; field order, width and sign errors that cancel between writer and reader on small values hide.',
     ['src/compiled_artifact.cc', 'src/compiled_artifact.h', 'src/exec_engine.cc', 'src/batch_exec_engine.cc'],
     [('writer and reader', 'src/compiled_artifact.cc'), ('save and load', 'src/exec_engine.cc'), ('batch save and load', 'src/batch_exec_engine.cc')],
     technique='abstract interpretation of writer and reader on opaque bytes; comparison with the layout and round-trip identity of fields',
     note='payloads below 4 GiB; object code opaque')
prop('P21', 'Malformed, foreign or mismatching artifacts are refused',
     'Loading bytes that are not a well-formed artifact (any truncation, wrong magic, version or footer, length or count fields that exceed the data, trailing or leading bytes, '
     'invalid mode) fails with an error and never reads outside the given bytes; a well-formed artifact whose LLVM version, target triple or '
     'engine kind differs from the host is always refused, one whose CPU or floating-point mode differs is refused unless the load options relax that '
     'check; otherwise it is accepted.',
     ['inputs', 'configurations'], 'all proper prefixes, all structural byte corruptions, all length fields at boundary values up to their maximum, the whole host mismatch table',
     'Tests corrupt a few bytes; overflowing lengths at each of a dozen fields and each host mismatch are not sampled.',
     ['src/compiled_artifact.cc', 'src/exec_engine.cc', 'src/batch_exec_engine.cc', 'src/compiled_artifact.h'],
     [('reader bounds', 'src/compiled_artifact.cc'), ('host check', 'src/compiled_artifact.cc')],
     technique='abstract interpretation of the artifact reader over corrupted layouts with bounds checks on every buffer access; decision table comparison',
     note='one field corrupted at a time in the quick tier, pairs in the thorough tier')
prop('P22', 'Every compile honours the options the engine was constructed with',
     'Whatever an engine compiled or loaded before, each Compile uses exactly the engine\'s own options: floating-point relaxations (target options, fast-math flags or '
     'attributes) appear only when the fast mode was requested, IR text is available exactly when requested and describes the last program, object code is captured exactly when '
     'requested, and every execution context the engine creates has the configured arena chunk size; the Athena front ends pass their options on unchanged.',
     ['configurations', 'histories'], 'all option combinations x operation histories of both engines; all functions of the library for relaxing interfaces',
     'Tests set one option at a time on a fresh engine; option state leaking between compiles, loads and engines is not sampled.',
     ['src/jit_core.cc', 'src/exec_engine.cc', 'src/batch_exec_engine.cc', 'include/exec_options.h', 'athena/athena.h'],
     [('target options', 'src/jit_core.cc'), ('engine options', 'include/exec_options.h')],
     technique='abstract interpretation of both engines over a JIT model for every option combination; search of all functions for relaxing LLVM interfaces',
     note='JIT library calls modelled')
LANGF = ['athena/parser.yy', 'athena/parser.cc', 'athena/token.ll', 'athena/token.cc', 'athena/ast_builder.cc']
prop('P27', 'Programs parse to exactly the tree the grammar denotes, all else is rejected',
     'A program is one or more statements `expr;`, `name = expr;` or `let name = expr;`, in pipeline programs also `when expr { statements }` followed by any number of `elif expr {...}` / '
     '`else {...}`. Binary operators bind, from loosest to tightest: or; and; in; |; ^; &; == !=; < <= > >=; << >>; + -; * / %; all associate to the left; unary - + ~ not bind '
     'tighter than every binary operator. Primaries are literals, true/false (u8 1/0), non-empty lists of literals of one kind, names, calls f(args...), if(args...), '
     'switch(args...), entry_arg, exec_ctx, output and parenthesised expressions. The builder yields exactly the tree this grammar denotes, with operands and arguments in '
     'source order (`a in b` is the call in(a, b)); every text outside the grammar is rejected with ParseError, never accepted, mis-structured or an escaping exception.',
     ['programs', 'inputs'], 'all pairs and triples of operators, all unary/binary mixes, all call and list forms, all 3-token statements over an alphabet, one-edit neighbours of programs using every construct',
     'Precedence and associativity are a quadratic table and rejection quantifies over all malformed texts; tests parse a few dozen well-formed programs.',
     LANGF, [('grammar actions', 'athena/parser.yy'), ('parser tables and skeleton', 'athena/parser.cc'), ('tree builder', 'athena/ast_builder.cc')],
     technique='abstract interpretation of the generated scanner, LALR parser and tree builder over the typed AST, compared with an independent precedence parser',
     note='program length bounded as listed; memory allocation assumed to succeed')
prop('P28', 'Text splits into exactly the documented tokens with exact literal values',
     'The scanner splits every text by longest match (keywords before names) into the documented tokens: names [a-zA-Z][a-zA-Z_0-9]*; the keywords let when if elif else switch in not and or '
     'true false entry_arg exec_ctx output; operators and punctuation with the synonyms ! && || <>; integer literals (i32 unless suffixed u8..u64, i8..i64, f32, f64); '
     'decimal literals with a point (f64 unless suffixed f32/f64); strings in single or double quotes, whose value is the text between the quotes with escapes kept as written. '
     'Blanks, newlines, // and /* */ comments separate tokens and are otherwise ignored. A literal has the written type and exactly the written (for floats: correctly '
     'rounded) value; a literal beyond 64 bits and any character that starts no token is rejected with ParseError.',
     ['inputs'], 'all texts, for token boundaries and kinds (automaton equivalence); all pairs and many triples of representative lexemes and boundary literals, for values',
     'The token automaton is defined over all byte strings; tests use a few lexemes with blanks between them.',
     LANGF, [('scanner rules', 'athena/token.ll'), ('scanner tables', 'athena/token.cc')],
     technique='product construction of the committed flex tables with an NFA of the documented token rules; abstract interpretation of the scanner actions',
     note='no NUL bytes; integer literals that fit 64 bits but not their suffix type unclaimed')
prop('P29', 'A variable denotes exactly the expression last assigned to it',
     'In an expression program a name denotes an unchanged copy of the expression last assigned to it before the use, and the program denotes its last statement. In a pipeline program every '
     'statement is kept, in order, with its name and constness, nested blocks are kept inside their arm, and uses stay references. A use is rejected if no assignment to the name in the same or an '
     'enclosing block precedes it (a block\'s own assignments are not visible after it). In an expression program reassigning a let name or redeclaring an assigned name with let is rejected. '
     'A builder used again carries nothing over from earlier programs, accepted or rejected.',
     ['programs', 'histories'], 'all statement sequences up to three over two names, selected ones of four, nested blocks two deep, every node form as a definition, all ordered pairs of builds on one builder',
     'Histories of assignments multiply; tests use one or two assignments per program.',
     ['athena/ast_builder.cc', 'athena/parser.yy', 'athena/parser.cc', 'src/exec_node.cc'],
     [('variable lookup', 'athena/ast_builder.cc'), ('copying definitions', 'src/exec_node.cc')],
     technique='abstract interpretation of the front end over the typed AST, compared with a reference environment semantics',
     note='sequence length bounded as listed')
prop('P32', 'Every reported source location is the span of the offending construct',
     'Whatever blanks, line breaks, comments and multi-line strings precede or interrupt a construct, its tree node records the construct\'s first line and column and the line and column just past '
     'its last character (1-based, bytes); a variable use inlined by an expression program carries the span of the use. An undefined variable is reported at the use; a '
     'syntax error at the first token with which the text stops being the beginning of a valid program; a character that starts no token at that character; a type error at '
     'the operator, call, if or switch whose operands do not fit (at the condition, when a condition is not numeric). A rendered diagnostic shows the message, line and column, each source line '
     'of the span with carets under exactly the spanned columns, then notes and hints in the order added.',
     ['programs', 'inputs'], 'programs of every construct laid out with every separator kind in every token gap; all error kinds in several contexts; a grid of texts, spans, notes and hints for rendering',
     'Tests report errors in one-line programs; columns after multi-line comments and strings were never looked at.',
     LANGF + ['src/diagnostic.cc', 'src/validator.cc'],
     [('location tracking', 'athena/token.ll'), ('location of nodes', 'athena/parser.yy'), ('rendering', 'src/diagnostic.cc'), ('type errors', 'src/validator.cc')],
     technique='abstract interpretation of scanner, parser, validator and renderer over the typed AST, compared with reference spans and a reference renderer',
     note='when several errors are present no claim on which is reported; wording of messages not claimed')
prop('P33', 'Special pointers and results pass between caller and program unchanged',
     'Wherever a program writes entry_arg, exec_ctx or output - as an argument of any position, a statement, a variable kept and used later, inside conditions, branches, switches, isolated blocks or nested calls - '
     'the called function receives exactly the entry argument, execution context or result pointer the caller handed to that execution; a builtin that needs storage or errors receives the execution context, '
     'whether written or implied. The compiled entry is a function of the three pointers that returns the value of the program\'s root in the native type of its result, on every path; '
     'this holds on both engines, for every entry of a batch and whatever was compiled before.',
     ['programs', 'inputs', 'histories'], 'programs passing the pointers through every kind of place; every result type; batches of up to three entries; all paths of the generated code',
     'Tests hand null or a single pointer, so two exchanged pointers can look the same.',
     ['src/codegen/entry_argument_codegen.cc', 'src/codegen/exec_context_codegen.cc', 'src/codegen/output_node_codegen.cc', 'src/codegen/function_codegen.cc', 'src/jit_core.cc'],
     [('special pointers', 'src/codegen/entry_argument_codegen.cc'), ('implied context', 'src/codegen/function_codegen.cc'), ('entry function', 'src/jit_core.cc')],
     technique='abstract interpretation of validator, code generator and engine over the typed AST; path enumeration of the generated entry with the parameters as symbols',
     note='programs from an enumerated family of places')
prop('P19', 'Executions share nothing mutable with each other or with other engines',
     'No library function reads or writes non-constant global, static or thread-local data, or calls a C library function with hidden state; executing through any overload of any engine or front end '
     'changes nothing of the engine (compiled or not, with or without runtime errors), only the caller\'s context and result; so executions with their own contexts, also of the same engine, '
     'and different engines cannot influence one another, in any interleaving.',
     ['schedules', 'histories'], 'all library functions; all Execute overloads, result types and outcomes',
     'Races need a particular interleaving and leave no trace in single-threaded tests; a static buffer shows only when two results are alive at once.',
     ['src/exec_engine.cc', 'src/batch_exec_engine.cc', 'src/function', 'include/execute_dispatch.h', 'athena/athena.h'],
     [('thread-safety contract', 'include/exec_engine.h'), ('native functions', 'src/function')],
     technique='call-graph and storage-class analysis over the typed AST; abstract interpretation of all Execute overloads with write tracking on the engine',
     note='generated code and LLVM itself assumed not to add shared state; Compile is documented as not thread-safe on one engine')
prop('P23', 'Arena memory is aligned, disjoint and owned; contexts clear completely',
     'Every non-empty arena request yields null (only when the system is out of memory) or a region of the requested size, aligned as requested, inside one chunk and '
     'overlapping no other region handed out since the last reset; empty requests yield null. Reset keeps exactly the first chunk and frees every other chunk once, destruction frees all; '
     'memory fitting the first chunk is reused without new system allocations; total_bytes and avail_bytes never claim more than there is. Objects made by Create are destroyed exactly once, at the next reset '
     'or destruction, newest first; when memory fails none is created. An execution context reports its errors in order joined by "; " and Clear empties errors and storage.',
     ['inputs', 'histories', 'fault_sequences'], 'histories of up to 14 requests and resets with all residues of the allocator, alignments up to 64, sizes around the chunk end, every malloc failing or not',
     'Overlap and misalignment depend on residues of addresses and exact remaining sizes; malloc failures are never tested.',
     ['src/arena.cc', 'include/arena.h', 'include/exec_options.h'],
     [('bump allocation', 'src/arena.cc'), ('finalizers', 'include/arena.h'), ('error list', 'include/exec_options.h')],
     technique='abstract interpretation of the arena over a heap model with concrete address residues and injected allocation failures',
     note='bounded histories; sizes near SIZE_MAX excluded by documented precondition')
prop('P30', 'Fusing pipelines compiles each exactly once, whole, isolated and in order',
     'AthenaPipeline::Compile turns the given programs into entries such that every program is in exactly one entry, unchanged; programs of one entry keep their order and each keeps its variables to itself '
     '(the entry is an isolated NoOP naming no variable); programs that contain the same one-level computation (an operator, call, if or switch whose operands are all constants or '
     'arguments), directly or through a chain of other programs, are in one entry, all others in different ones. If any program is rejected, or the engine fails, the error is returned and nothing '
     'else is compiled.',
     ['programs', 'histories'], 'all sequences of up to three programs from a pool of twelve, longer chains and permutations; every failing position',
     'Tests fuse two or three pipelines; lost, duplicated or reordered pipelines depend on union order and chains.',
     ['athena/pipeline_grouper.cc', 'athena/dsu.cc', 'athena/athena.cc'],
     [('grouping', 'athena/pipeline_grouper.cc'), ('union-find', 'athena/dsu.cc'), ('driver', 'athena/athena.cc')],
     technique='abstract interpretation of the grouping visitor, union-find and driver on parsed trees, compared with the partition computed from the trees',
     note='pool of programs bounded; 64-bit hash collisions excluded; no claim on the order of entries')
prop('P26', 'A cloned tree equals its original, shares nothing; visits reach the node class',
     'Cloning any expression tree gives a tree with the same node classes, operators, names, constants, variable names and constness, isolation, children in order and source '
     'locations, sharing no storage with the original, which is unchanged; AppendArgs adds at the end. GetExecNodeType names the class of the node (distinct per class), Accept calls exactly once the '
     'Visit overload of the node\'s own class with the node itself and returns its status. ToString lists the tree in pre-order, one line per node: the prefix and "|--", then the label (operator '
     'symbol, distinct per operator; function name; value; [list,of,values]; ref(name); if, switch, if_block, no_op, entry_argument, exec_context, output), children with the prefix extended by "|   ", a named '
     'statement preceded by its "|   |--[let name]" line; equal trees print equally.',
     ['programs'], 'all trees over the node classes',
     'Nested copies, isolation flags, constness and locations of copies are observable only through later compilation; tests compare a few printed trees.',
     ['src/exec_node.cc', 'include/exec_node.h', 'src/type.cc', 'athena/ast_builder.cc'],
     [('copy', 'src/exec_node.cc: CloneImpl'), ('dispatch', 'src/exec_node.cc: Accept'), ('printing', 'src/exec_node.cc: ToStringImpl')],
     technique='abstract interpretation of the typed AST over generated trees; ownership comparison of the two heaps',
     note='about 100 trees covering every class, operator and literal kind, and every (class, visitor, status) dispatch')
prop('P31', 'Each entry of a batch is compiled exactly as it would be alone',
     'Compiling a batch succeeds exactly when every entry compiles alone; otherwise it fails with the error of the first failing entry. In a compiled batch every entry has a function of its own '
     'with the result type, control flow, calls, stores, constants and value it has when compiled alone (on the batch or the single engine), using only its own arguments: variables, constants and '
     'caches of one entry, or of an earlier compile on the same or another engine, never influence another. Nothing more is promised to the optimizer about an entry than that its three pointers do not '
     'alias and that the argument record is only read.',
     ['programs', 'histories'], 'all batches of entries and all earlier compiles',
     'Interference needs particular pairs: equal names with other types, equal constants, references to a name only another entry defines.',
     ['src/jit_core.cc', 'src/batch_exec_engine.cc', 'src/exec_engine.cc', 'src/validator.cc', 'src/codegen'],
     [('entries', 'src/jit_core.cc: BuildAndLink'), ('entry function', 'src/jit_core.cc: BuildEntryFunction'), ('caches', 'src/codegen/const_global_emit.cc')],
     technique='abstract interpretation of the typed AST (validator, code generator, JIT core over a JIT model); comparison of the path summaries of the emitted functions',
     note='pool of about 46 entry trees; all pairs, sampled triples, one batch of eighteen; one earlier compile')
prop('P24', 'The Athena front ends run exactly the last good program, or nothing',
     'After any sequence of compiles of an AthenaExpression or AthenaPipeline: a successful Compile installs its program; one whose text is rejected fails and leaves the previous program in place; one whose '
     'text is fine but whose compilation fails leaves nothing to run (Execute then fails). An empty pipeline list is refused and changes nothing. Every Execute overload runs every entry of the current '
     'program exactly once, in order, with the caller\'s argument pointer, result pointer and execution context (its own when none is given), and returns the status, error messages and typed result of that '
     'run. The function registry given to Compile is the one used, and the IR text is that of the compiled program.',
     ['histories', 'fault_sequences'], 'all histories of compiles with good, rejected and failing programs, followed by each Execute overload',
     'Reuse after a failed compile and the less used overloads need particular histories; tests compile once and run.',
     ['athena/athena.cc', 'athena/athena.h', 'src/exec_engine.cc', 'src/batch_exec_engine.cc', 'src/jit_core.cc'],
     [('front ends', 'athena/athena.cc: Compile'), ('overloads', 'athena/athena.h: Execute')],
     technique='abstract interpretation of the typed AST of front ends and engines over a JIT model, with injected failures',
     note='histories of up to three compiles')
prop('P25', 'No failure is swallowed: a failing internal step always fails the public call',
     'Whenever a step inside Compile, SaveCompiled or LoadCompiled of either engine, AthenaExpression::Compile or AthenaPipeline::Compile (front end and engine; the pipeline grouping heuristic excepted), or '
     'FunctionRegistryFactory::CreateFunctionRegistry reports an error status - validation, code generation or type conversion of any node, building of an entry, resolving or mapping of functions, '
     'linking, (de)serialization, parsing, any single registration - the public call itself returns an error status, without undefined behaviour on the way.',
     ['fault_sequences', 'programs'], 'every internal call returning a status, made to fail once, for every program of the pool',
     'The internal errors cannot be provoked by inputs, or only by inputs no test has.',
     ['src/jit_core.cc', 'src/codegen', 'src/validator.cc', 'src/function_registry.cc', 'src/function', 'src/exec_engine.cc', 'src/batch_exec_engine.cc', 'athena/ast_builder.cc', 'athena/athena.cc'],
     [('status', 'include/status.h: JF_RETURN_NOT_OK')],
     technique='abstract interpretation of the typed AST with one injected failure per run; syntactic query of all status-returning call sites',
     note='one failing step at a time; call sites outside the pool\'s runs only by the syntactic rule')
