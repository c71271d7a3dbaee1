# rows of properties.jsonl, by family.  prop(id, title, statement, over, text, why, files, mech, state, obs, claim|na)

# ---------------------------------------------------------------- H: host
prop('H01', 'An embedded script never terminates the host or writes to its streams',
     'Whatever script or API sequence a host runs through the public API, the library never terminates the process '
     '(exit, abort, assertion) and never writes to the process\'s standard output or error except through the print and '
     'error sinks configured for that state and the io library\'s stream objects. '
     'Control always comes back to the API caller, with an error code when something failed.',
     ['programs', 'inputs', 'fault_sequences'],
     'every script, every input and every API call sequence, including failing allocations of the parser and failing loads',
     'Tests run the stand-alone interpreter, where a stray puts or exit looks like normal output or a normal failure; only a few dozen failing scripts are sampled.',
     ['yasl.c', 'yasl_aux.c', 'compiler/parser.c', 'compiler/compiler.c', 'interpreter/VM.c', 'std/*.c'],
     [('setjmp/longjmp error protocol', 'interpreter/VM.c vm_throw_err; compiler/parser.c handle_error'),
      ('configurable print/error sinks', 'util/IO.h, yasl.c YASL_setprintout_*')],
     [], ['process exit status, stdout/stderr of the host'],
     claim=('effect analysis over the whole-program call graph (LLVM IR)',
            'Sound over the linked call graph with address-taken functions as indirect targets; longjmp targets are checked to be armed by a setjmp on every path. Trusts libc.'))
prop('H02', 'Interpreter states share nothing: each state is isolated',
     'Two interpreter states in one process do not influence each other: no operation on one state can change what another '
     'state observes, because no mutable storage is shared between states.',
     ['histories', 'schedules'],
     'every interleaving of API calls on any number of states',
     'The tests only ever create one state per process (or one after another), so shared mutable storage is invisible to them.',
     ['yasl.c', 'compiler/*.c', 'interpreter/*.c', 'std/*.c', 'data-structures/*.c'],
     [('all state hangs off struct YASL_State', 'yasl.c, yasl_state.h')], [], ['results of one state while another runs'],
     claim=('global-storage write/escape analysis (LLVM IR)',
            'Every writable global with static storage is enumerated; any store through a pointer derived from it, and any escape into mutable position, is reported. Trusts libc internals (rand, errno).'))
prop('A01', 'Every function the public headers declare can be linked',
     'Every function the public headers declare for embedders is defined by the library with external linkage, '
     'so a host that calls any documented function links.',
     ['programs'], 'every host program using only declared functions',
     'A test only links the functions it happens to call.',
     ['yasl.h', 'yasl_aux.h', 'yasl_plus.hpp'], [('declarations and definitions', 'yasl.h, yasl_aux.h / yasl.c, yasl_aux.c')],
     [], ['link of a host program'],
     claim=('cross-check of clang AST declarations against IR definitions', 'Exact for the configuration the build uses.'))

# ---------------------------------------------------------------- E: errors
prop('E01', 'A reported runtime error is always raised, with the matching code',
     'Whenever the library prints a runtime error (TypeError, ValueError, DivisionByZeroError, StackOverflow, ...) the current execution is '
     'aborted with the error code of that class, on every path; and no error is raised without a message having been printed.',
     ['programs', 'inputs'], 'every path of every opcode, builtin and library function',
     'Tests check the text of some messages; whether the code matches, and whether every other failing path raises, they do not.',
     ['interpreter/VM.c', 'interpreter/*_methods.c', 'std/*.c', 'yasl_aux.c', 'yasl.c'],
     [('print macro followed by throw', 'util/yasl_error.h, vm_throw_err, YASL_throw_err')], [], ['stderr and return code of YASL_execute'],
     claim=('interprocedural typestate dataflow over all paths (LLVM IR)',
            'Finite-state dataflow: state = class of the pending message; all paths of all functions reachable from the API, summaries for callees. Path-insensitive to data, hence may only over-report.'))
prop('E02', 'A script with a syntax error is reported and never executed',
     'If any part of a source text is rejected (lexical, syntax or scope error), the compile or execute call returns a failure code and '
     'none of that text is ever executed; a status once failed never turns into success within the same compilation.',
     ['programs'], 'every source text and every position of its first error, in every entry point that compiles',
     'About 200 erroneous scripts are sampled, each with its error at one place.',
     ['compiler/parser.c', 'compiler/compiler.c', 'compiler/lexer.c', 'yasl.c'],
     [('status field of parser/compiler', 'compiler/compiler.c compile, handle_error; compiler/parser.c')], [], ['return code of YASL_compile/YASL_execute and side effects'],
     claim=('interprocedural typestate dataflow plus null-gating by abstract interpretation (LLVM IR)',
            'All paths; every print of a syntax error is followed by recording the status or leaving through the error jump; bytecode is returned only under status==0.'))

# ---------------------------------------------------------------- M: machine-level safety of the VM
VMF = ['interpreter/VM.c', 'interpreter/*_methods.c', 'std/*.c', 'yasl.c', 'yasl_aux.c']
prop('M01', 'A value is only ever used according to its own type tag',
     'No script and no API call can make the interpreter use the payload of a value as something its type tag does not say: an integer is never '
     'dereferenced, a list is never treated as a table or string, a float is never read as an integer, and the data of a userdata is only used by the library that '
     'created it. Wherever a builtin, an opcode or an API function uses a payload, the tag was tested before on that path.',
     ['programs', 'inputs'], 'every builtin, library function, opcode and API function, every path, every combination of argument types',
     'Tests call builtins with a few wrong types each; 113 natives x 16 types x argument positions are not enumerable by hand.',
     VMF + ['data-structures/*.c'], [('tag tests before payload access', 'interpreter/YASL_Object.h, YASLX_checkn*, vm_is*')],
     [], ['crash or garbage of a script that passes a value of a wrong type'],
     claim=('abstract interpretation of the LLVM IR with a type-tag domain',
            'Path-sensitive abstract execution of all natives, opcodes and API functions; every payload use is an obligation. Assumes contents of containers are well-formed objects (each constructor is checked).'))
prop('M02', 'Builtins only touch their own part of the value stack',
     'A builtin, library function or opcode never reads a stack slot it was not given or did not push, never overwrites or pops below its own frame, '
     'and returns exactly as many values as it says: whatever arguments a script passes (missing, extra, of any type), the caller\'s locals and temporaries survive the call unchanged.',
     ['programs', 'inputs'], 'every path of every builtin and library function (113), from an arbitrary stack and an arbitrary number of extra arguments',
     'A slot off by one shows only when the neighbouring slot is looked at afterwards; tests mostly call builtins with nothing beneath them.',
     VMF, [('native call protocol', 'interpreter/VM.c vm_CALL_cfn, vm_exitframe_multi')], [],
     ['values of the caller\'s variables after a call'],
     claim=('abstract interpretation of the LLVM IR with a symbolic stack (linear forms over sp and fp)',
            'Path-sensitive over all natives; every slot read, slot write, pop and return count is an obligation relative to the frame. Callees that re-enter the VM are modelled by the call protocol.'))
prop('A02', 'API functions affect the value stack exactly as documented',
     'Every API function of yasl.h/yasl_aux.h that inspects, pushes or pops values changes the number of values on the stack by the documented amount on every path, '
     'touches only the documented slot, answers is*-queries according to the type of exactly that slot, and returns the payload of that slot (or zero/NULL when the type differs).',
     ['programs', 'histories'], 'every stack function of the API on a value of every type, at the top and at a position, with every neighbour',
     'The API tests call each function with a matching type; the 200 type/function combinations with another type, and what is left below, are not looked at.',
     ['yasl.c', 'yasl_aux.c', 'yasl.h', 'yasl_aux.h'], [('[-n, +m] annotations', 'yasl.h')], [], ['return values and stack depth seen by the host'],
     claim=('abstract interpretation of every API function per value type (LLVM IR)',
            'Exhaustive over functions x types; results are compared symbolically with the slot contents.'))

# ---------------------------------------------------------------- S: meaning of programs
prop('S03', 'Operators compute the specified function for every combination of types',
     'Every operator applied to operands of any types yields the value the language specifies (integer operators on integers, float arithmetic as soon as one side is a float, string '
     'comparison by contents, no implicit conversion in ===), in operand order; for combinations without a builtin meaning it calls the operator\'s own metamethod of the left operand with both operands in order, or '
     'raises a TypeError when there is none; division by integer zero is a DivisionByZeroError; exactly undef, false, the empty string and NaN are false in ! and in every conditional jump.',
     ['programs', 'inputs'], 'every operator opcode x every combination of 8 operand types x all operand values',
     'The tests check a few values per operator; the 1292 type combinations, metamethod names and operand orders are not enumerable by hand.',
     ['interpreter/VM.c', 'interpreter/YASL_Object.c', 'interpreter/operator_names.h'], [('operator opcodes', 'interpreter/VM.c vm_executenext, vm_num_binop, DEFINE_COMP, vm_EQ')], [],
     ['result of an expression'],
     claim=('abstract interpretation of each opcode per type combination, symbolic comparison with a specification table (LLVM IR)',
            'Exhaustive over opcodes x type pairs; values symbolic. isequal is compared with its own table; the string comparison is uninterpreted.'))

# ---------------------------------------------------------------- B, S: compiler
CGF = ['compiler/compiler.c', 'compiler/env.c', 'compiler/ast.c', 'interpreter/VM.c']
prop('B03', 'Generated code keeps the value stack and the variables in step',
     'In the code generated for any program, every variable lives in the stack slot its scope assigned to it at every point where it is in scope; an expression leaves exactly '
     'its values and a statement exactly the variables it declares, on every way out of it (end, break, continue, guard failure, return), so no construct disturbs the variables or '
     'operands of the code around it; loops and calls that are begun are ended and jumps land on instructions. Compiling a construct leaves the compiler\'s scopes, '
     'enclosing loops and enclosing function as they were.',
     ['programs', 'histories'], 'every construct x every context (file, function, prompt, operands below) x every outcome of its conditions',
     'Tests execute a few paths of a few nestings; a slot that is off by one shows only for particular combinations of scopes, jumps and operands.',
     CGF, [('scopes and slots', 'compiler/env.c scope_*, compiler/compiler.c decl_var'), ('loop checkpoints', 'compiler/compiler.c visit_While, visit_ForIter, visit_Break'),
           ('match arms', 'compiler/compiler.c visit_Match_helper')], [], ['values of variables and results of a script'],
     claim=('abstract interpretation of the code generator (LLVM IR) on node shapes with opaque parts; the emitted instructions are checked on a symbolic stack machine',
            'Exhaustive over the listed shapes (about 600) and up to 6 (thorough: 9) decisions per trace; parts and their sizes are symbolic. Composition to arbitrary nesting by '
            'the per-part contract. The parser and the opcode handlers are outside.'))
prop('S04', 'The parser builds exactly the tree the grammar prescribes',
     'Every sentence of the language is parsed as the tree its grammar prescribes (precedence and associativity of every operator, operands and parts of every expression, statement, pattern '
     'and declaration in their places, every target and value of a multiple assignment counted, texts and numbers unchanged); a text that is no sentence is rejected; and parsing always ends, '
     'touches only memory of the parser and uses none after freeing it, whatever tokens it is given.',
     ['programs', 'inputs'], 'sentences of the grammar (all pairs of operators, all primaries and statements in all slots), and texts with tokens missing, added or replaced',
     'There are hundreds of pairs of operators and thousands of combinations of constructs; a wrong grouping gives a wrong result without an error, in a combination tests do not contain.',
     ['compiler/parser.c', 'compiler/ast.c', 'compiler/lexer.h'],
     [('parser', 'compiler/parser.c'), ('tree nodes', 'compiler/ast.c')], [],
     ['results of programs; error messages; crashes while parsing'],
     claim=('abstract interpretation of the parser on sequences of token kinds (LLVM IR), trees compared with those of a reference grammar',
            'Token texts are opaque except keywords of patterns and number prefixes; 5000 sentences and 2000 damaged texts (quick), 12000 and 16000 (thorough). Lexing is not part of it, messages are not judged.'))
prop('L02', 'The lexer splits every text into exactly the tokens of the language',
     'Every text, whether it comes from a file or from memory, is split into exactly the tokens the language defines: longest operators first, keywords only where they are keywords (a name '
     'after `.` or `->` is no keyword), literals with their exact characters and escapes (numbers without their `_`), semicolons inserted at the line ends that end a statement, comments and '
     'blanks skipped; what is no token is an error; each token knows its line; and lexing always ends and touches only its own memory.',
     ['programs', 'inputs'], 'texts: every pair of tokens and signs, literals of every length across growth of the buffer, every character in every kind of literal, ends of the text everywhere',
     'A token boundary, a buffer that grows at one length or the end of the input inside a token go wrong for one text in thousands; what a program means then changes silently.',
     ['compiler/lexer.c', 'compiler/lexinput.c', 'data-structures/YASL_ByteBuffer.c'],
     [('lexer', 'compiler/lexer.c'), ('sources of characters', 'compiler/lexinput.c')], [],
     ['tokens of a program; error messages; crashes while lexing'],
     claim=('abstract interpretation of the lexer and its character sources on texts of fixed characters and character classes (LLVM IR), tokens compared with those of a reference lexer',
            'Character classes (letters, digits, bytes without a meaning) are abstract; 22000 texts (quick), about 60000 (thorough). Messages are not judged.'))
prop('C05', 'The text of a container shows exactly what it contains, itself included',
     'tostr of a list, table or set yields its parts in order, each in its own text form (lists and tables recursively), with the documented separators; a list or table that lies inside itself, at '
     'any depth, is shown as [...] or {...} there and only there (the same container twice side by side is shown twice); the container and its parts are unchanged, nothing is leaked, and '
     'no memory outside of the buffers is touched, however long the texts and deep the nesting.',
     ['inputs', 'histories'], 'containers of up to 12 parts and 20 levels, texts of lengths across every growth of the buffers, every kind of cycle',
     'Buffers grow at certain lengths and depths, cycles can be closed in many ways; tests print a few small values.',
     ['interpreter/list_methods.c', 'interpreter/table_methods.c', 'std/yasl-std-collections.c', 'data-structures/YASL_ByteBuffer.c'],
     [('lists', 'interpreter/list_methods.c'), ('tables', 'interpreter/table_methods.c'), ('sets', 'std/yasl-std-collections.c')], [],
     ['printed containers; results of tostr; crashes on nested values'],
     claim=('abstract interpretation of the tostr natives on containers of opaque values (LLVM IR), texts compared with a specification over nested containers',
            'Text forms of other values (numbers, functions) are opaque texts; user-defined tostr methods that change the container meanwhile are not covered. 640 containers (quick), 1500 (thorough).'))
prop('S05', 'Parts of a program are evaluated in the specified order and number',
     'For every construct of the language, the generated code evaluates exactly the parts the language says, in source order and as often as it says: operands left to right, the '
     'right side of && || ?? and the branches of ?: and if only when chosen, loop bodies and steps per iteration, guards only after their pattern matched and before the '
     'body, arms in order, functions only when called; it yields the value the construct means and leaves it the way it means (break, continue, return, end).',
     ['programs', 'inputs'], 'every construct x every outcome of its conditions x every context',
     'Tests check results of sample scripts; a part that is evaluated twice, in the wrong order or on the wrong condition only shows with side effects and for particular outcomes.',
     CGF, [('visit functions', 'compiler/compiler.c visit_*')], [], ['order of side effects, results'],
     claim=('abstract interpretation of the code generator (LLVM IR) on node shapes; trace comparison with a reference meaning for every sequence of decisions',
            'Same shapes and bounds as B03. Opcode handlers are covered by S03 (operators) and M01; the parser is outside.'))
prop('S01', 'Misused names and misplaced statements are rejected when compiling',
     'A program that reads or assigns a name that is not in scope, assigns to a constant (const variable, const parameter, const pattern, named function), declares a name twice in '
     'one scope, binds different names on the two sides of | in a pattern, or uses break, continue, return or export where they have no meaning, is rejected at compile time '
     'with a message, wherever in the program it is, including in code that can never run; declaring a name again in another scope is accepted; a rejected program yields no bytecode.',
     ['programs'], 'every kind of misuse x every context (file, block, function, closure, loop, match arm, dead code, prompt)',
     'Tests reject a few dozen programs; each rule has to hold for each kind of scope and in each context.',
     ['compiler/compiler.c', 'compiler/env.c'], [('name resolution', 'compiler/compiler.c load_var, store_var, decl_var'), ('validation of dead code', 'compiler/compiler.c validate'),
                                                ('loop checkpoints', 'compiler/compiler.c visit_Break, visit_FnDecl')], [], ['result of compiling'],
     claim=('abstract interpretation of the code generator (LLVM IR) on ill-formed node shapes; every path must report an error',
            'Exhaustive over 531 shapes whose other parts are opaque.'))
prop('E03', 'A failed compilation or run leaves the state as usable as before',
     'When compiling or running a program fails at any point, nothing of it is left in the way of what the same state compiles or runs next: the value stack, call frames and '
     'running loops are as they were before the run, the compiler has no scope, function or loop left open, error codes, code and line table are cleared by a reset, a failed compilation '
     'yields no bytecode, and functions defined by earlier runs stay callable.',
     ['histories', 'fault_sequences'], 'every sequence of failing and succeeding programs run on one state (prompt, YASL_resetstate, YASL_resetstate_bb)',
     'The tests run one program per state; the prompt is only ever tested by hand.',
     ['interpreter/VM.c', 'yasl.c', 'compiler/compiler.c', 'compiler/env.c'],
     [('abort by longjmp', 'interpreter/VM.c vm_run, vm_throw_err'), ('reset', 'yasl.c YASL_resetstate_bb'), ('scopes of the compiler', 'compiler/compiler.c compile')], [],
     ['results of programs run after a failed one'],
     claim=('abstract interpretation (LLVM IR) of the abort path, the reset functions and the code generator on rejected programs; comparison of the state before and after',
            'Assumes that an abort leaves the stack, frames and loops no lower than at the start of the run (the running program owns only what is above). Parser memory is not covered.'))
prop('S02', 'Folding constants never changes what an expression means',
     'An operator applied to literals yields, when the compiler computes it, exactly the value (same type, same number) that the operator yields at run time, for all literals; operations that would raise an '
     'error, call a metamethod or have no builtin meaning for the literals are left to run time; nothing that is not an operation on literals is replaced, and folding itself never traps.',
     ['programs', 'inputs'], 'every operator x every combination of literal and other operands x all literal values; every other kind of syntax node',
     'Tests fold a few constants; a folded operator that disagrees with the opcode shows only for particular values (NaN, -1, least integer, mixed types).',
     ['compiler/middleend.c', 'interpreter/VM.c'], [('folding', 'compiler/middleend.c fold_BinOp, fold_UnOp, fold')], [], ['results of constant expressions'],
     claim=('abstract interpretation of the folder (LLVM IR) per operator and operand kinds; symbolic comparison with the specification of the opcodes (S03)',
            'Exhaustive over operators x 11 operand kinds; literal values symbolic.'))
prop('M04', 'No number makes integer arithmetic trap or go undefined',
     'Whatever numbers a script, a constant expression or a host supplies, no integer division or remainder is performed with divisor 0 or on the least integer and -1, and no shift with a distance '
     'outside 0..63: the process is never killed by an arithmetic trap; this includes reducing hashes by the size of a table or set, which is never 0.',
     ['programs', 'inputs'], 'every division, remainder and shift of the library x all operands',
     'The trapping operands are single values of 2^64; tests do not use them.',
     ['interpreter/VM.c', 'compiler/middleend.c', 'std/yasl-std-math.c', 'util/hash_function.c', 'util/prime.c', 'data-structures/YASL_Table.c', 'data-structures/YASL_Set.c'],
     [('integer operators', 'interpreter/VM.c idiv, modulo, shift_left'), ('folding', 'compiler/middleend.c fold_BinOp'), ('hashing', 'util/hash_function.c')], [], ['termination by SIGFPE; results of shifts'],
     claim=('abstract interpretation (LLVM IR) of natives, opcodes and every function that divides, with sign and disequality facts and loop invariants',
            'Every division, remainder and shift instruction is accounted for. Overflow of + - * (wraps on the supported compilers) and float-to-int conversions are outside.'))
BVM = ['interpreter/VM.c', 'interpreter/upvalue.c', 'interpreter/closure.c', 'opcode.c', 'interpreter/VM.h']
prop('B01', 'Every instruction has exactly the effect generated code relies on',
     'Every bytecode instruction decodes exactly the operands the code generator emits for it, leaves exactly the values, variables, captured variables, globals and running loops its '
     'meaning says (wherever on the stack it runs and whatever the values are) and goes on behind its operands or at its jump target; list and table literals contain exactly the given elements; '
     'an iteration yields every element of a list and every key of a table once, in order, and skips free and removed slots; closures share the variables they capture, also after the variable '
     'has gone out of scope.',
     ['programs', 'histories'], 'every instruction x stack shapes (variables, temporaries, frames, loops, open captured variables) x operand values; contents symbolic',
     'Tests run instructions inside whole programs; an effect on a slot nobody looks at, an operand above 127, or a capture order that never occurs in a test goes unnoticed.',
     BVM, [('instruction handlers', 'interpreter/VM.c vm_executenext'), ('captured variables', 'interpreter/VM.c vm_CCONST, add_upvalue, vm_close_all_helper'),
           ('iteration', 'interpreter/VM.c vm_ITER_1')], [], ['values of variables and results of a script'],
     claim=('abstract interpretation of every instruction handler on stack shapes with symbolic contents (LLVM IR), compared with a specification of the instruction',
            'Exhaustive over instructions and about 750 shapes; stack depths, operand values and list lengths are small numbers, contents symbolic. Values of operators are S03, calls B02, patterns B06.'))
prop('B02', 'A call passes its arguments and yields exactly the expected results',
     'Whatever kind of function is called (YASL function, closure, C function with fixed or variable parameters), with however many arguments, and however many results it leaves or the caller '
     'expects: the function starts with exactly its parameters (missing ones undef, surplus ones dropped, variable ones counted), and after it returned the caller finds its own values, frame, '
     'running loops and return address as before and exactly the expected number of results in order; method calls pass the receiver first; only functions are ever entered (a value with __call is '
     'replaced by that function, anything else is a TypeError).',
     ['programs', 'histories'], 'kinds of functions x arguments x parameters x results x expected results; contents symbolic',
     'Tests call with matching counts; combinations such as a native leaving more than it returns, called with too few arguments for two results, are not sampled.',
     BVM, [('call protocol', 'interpreter/VM.c vm_INIT_CALL_offset, vm_CALL, vm_CALL_cfn, vm_fill_args, vm_exitframe_multi, vm_rm_range')], [], ['arguments and results of calls'],
     claim=('abstract interpretation of the call instructions on stack shapes with symbolic contents (LLVM IR), compared with a specification of the call protocol',
            'Exhaustive over about 520 combinations of counts (0..4 arguments, 0..3 parameters, 0..3 results, -1..4 expected) and one frame below; contents symbolic.'))
prop('B06', 'A pattern matches exactly the values it describes and binds their parts',
     'Matching a value against any pattern (type patterns, literals, lists and tables, exact or open, alternatives, bindings, arbitrarily nested) succeeds exactly when the value has the described '
     'form, binds every name to the part it stands for, and continues behind the pattern or at the next arm, whatever part of the pattern failed; matching never changes other values.',
     ['programs', 'inputs'], '366 patterns x 30 value shapes; elements symbolic',
     'A failing sub-pattern must skip exactly the rest of the pattern: an error there shows only for particular nestings and failure positions.',
     ['interpreter/VM.c'], [('pattern interpreter', 'interpreter/VM.c vm_MATCH_subpattern, vm_ff_subpattern, vm_MATCH_table_elements, MATCH_list')], [], ['which arm of a match runs and what its names are'],
     claim=('abstract interpretation of the match instruction on pattern bytes and value shapes with symbolic contents (LLVM IR), compared with a reference matcher',
            'Exhaustive over the listed patterns (depth up to 3) and value shapes; equality of constants and elements is an uninterpreted decision.'))
prop('M06', 'Reference counts match the owners of every value',
     'Running any instruction counts every owner (stack slot, variable, captured variable, running loop, list item, table entry, name of a pattern) it adds to or takes away from a value: no '
     'reachable value is ever freed or used after it was freed, and a value whose last owner is gone is freed exactly once, whatever its type and whichever way the instruction ends.',
     ['programs', 'histories'], 'every instruction x stack shapes x values of every kind; contents symbolic',
     'A missing or surplus count shows only when the freed memory is used again; the tests pass with many such errors (they run without a sanitizer and exit at once).',
     BVM + ['interpreter/refcount.c', 'interpreter/YASL_Object.c', 'interpreter/userdata.c'],
     [('counting primitives', 'interpreter/refcount.c inc_ref, dec_ref'), ('owners of values', 'interpreter/VM.c vm_push, vm_pop; interpreter/upvalue.c')], [],
     ['use after free (sanitizer), results of scripts, memory use'],
     claim=('abstract interpretation of every instruction handler on stack shapes with symbolic contents (LLVM IR): tally of the owners of every value against the changes of its count',
            'Same stack shapes as B01 and B02 and the binding patterns of B06 (about 3500). Containers are opaque and taken to own what is put into them; leaks on paths that raise an error and values in natives are not covered.'))
COL = ['data-structures/YASL_Table.c', 'data-structures/YASL_Set.c', 'data-structures/YASL_List.c', 'interpreter/table_methods.c', 'interpreter/list_methods.c', 'std/yasl-std-collections.c', 'yasl_aux.c', 'yasl.c']
prop('C01', 'Tables and sets hold exactly what was put in and not removed',
     'After every operation on a table or a set (insert, overwrite, remove, clear, copy, union, intersection, difference, construction, iteration, and their API forms) it holds exactly the '
     'entries it should, each findable, in any arrangement of free, removed and occupied slots and across growing and shrinking; operands other than the receiver are unchanged; every entry is '
     'counted once and given up once; no memory outside of its blocks is used; errors are raised exactly for values that cannot be keys.',
     ['inputs', 'histories'], 'operations x arrangements of slots (all of 4 slots; all fill levels of 31 slots) x key types; values symbolic',
     'What a table holds depends on its history through removed slots, collisions and resizes; tests see few of these arrangements.',
     COL, [('tables', 'data-structures/YASL_Table.c'), ('sets', 'data-structures/YASL_Set.c'), ('methods', 'interpreter/table_methods.c, std/yasl-std-collections.c')], [],
     ['contents of tables and sets; use after free (sanitizer)'],
     claim=('abstract interpretation of every table and set operation on all small arrangements of slots with symbolic values (LLVM IR), compared with the operation on sets of entries',
            'Exhaustive over arrangements of 4 slots and fill levels of the smallest real size; larger tables are not enumerated. Equality and hashes are fixed per case (their agreement is C02).'))
prop('C02', 'Equal keys are one key and looking up any key ends',
     'Two keys of a table or set count as equal only if they hash equally, every key equals itself, values of different types are different keys, and the slots tried for a key cover the whole '
     'table, so that a lookup finds the key if it is there and otherwise ends.',
     ['inputs'], 'key types x hashes x table sizes',
     'A disagreement between equality and hashing shows only for particular keys (NaN, -0.0, 1 and 1.0) in particular slots.',
     ['data-structures/YASL_Table.c', 'data-structures/YASL_Set.c', 'util/hash_function.c', 'util/prime.c', 'interpreter/YASL_Object.c'],
     [('hashing', 'util/hash_function.c get_hash'), ('equality of keys', 'data-structures/YASL_Table.c isequal_typed')], [], ['lookups in tables and sets'],
     claim=('abstract interpretation of hashing, probing and key equality over pairs of key types with symbolic values (LLVM IR)',
            'Probing is enumerated for every pair of hashes modulo the sizes 3, 5, 7 and for extreme ones modulo 31; the quality of the hash is not judged.'))
prop('C03', 'Lists hold the right elements in the right order after every operation',
     'After every operation on a list (push, insert, pop, clear, reverse, sort, slice, copy, concatenation, comparison, searches, counting, indexing from both ends, and their API '
     'forms) it holds exactly the elements it should in order, results are the right values, bad indices and elements raise an error and change nothing, every element is counted once and given '
     'up once, and no memory outside of its block is used.',
     ['inputs', 'histories'], 'operations x list lengths 0..4 x indices x capacities x equality and order of elements; elements symbolic',
     'Off-by-one errors at ends, shrinking while full and reference counts of moved elements show only for particular lengths, capacities and later uses.',
     ['interpreter/list_methods.c', 'data-structures/YASL_List.c', 'interpreter/VM.c'],
     [('list methods', 'interpreter/list_methods.c'), ('storage', 'data-structures/YASL_List.c'), ('slices', 'interpreter/VM.c vm_SLICE')], [],
     ['contents of lists; use after free (sanitizer)'],
     claim=('abstract interpretation of every list operation on lists of small length with symbolic elements (LLVM IR), compared with the operation on sequences',
            'Exhaustive for lengths up to 4 (sorting: every order of up to 4 elements of 3 ranks); longer lists are not enumerated, sorting chooses distinct pivots.'))
prop('C04', 'String methods yield exactly the text their meaning says',
     'Every string method (length, indexing, search, count, split, trim, replace, repetition, prefix and suffix tests, case conversion, character classes), concatenation, comparison, equality '
     'and list.join yield exactly the text, number or list of texts their meaning says, for every text and however it is stored (own buffer, part of the program text, any offset), leave their '
     'arguments alone, look only at their own characters, stay within their memory blocks, and raise an error exactly for empty search texts, bad indices and impossible sizes.',
     ['inputs'], 'methods x texts of up to 4 letters over two opaque letters (and all characters for case and classes) x storage x limits',
     'Errors at the end of a text, with needles that overlap, or with texts stored at an offset show only for particular combinations of contents, lengths and storage.',
     ['data-structures/YASL_String.c', 'data-structures/YASL_ByteBuffer.c', 'interpreter/str_methods.c', 'interpreter/list_methods.c', 'interpreter/VM.c'],
     [('string functions', 'data-structures/YASL_String.c'), ('string methods', 'interpreter/str_methods.c'), ('concatenation', 'interpreter/VM.c vm_CNCT')], [],
     ['results of string methods; out-of-bounds accesses (sanitizer)'],
     claim=('abstract interpretation of every string function on texts of opaque letters (LLVM IR), compared with the operation on sequences',
            'Exhaustive for texts of up to 4 letters of two kinds and needles of up to 3; the letters are symbolic, longer texts are not enumerated. The numbers texts are converted to (strtod, strtoll) are not judged.'))
