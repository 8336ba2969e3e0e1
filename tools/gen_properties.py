#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand when the list changes).
import json,os
T='crates/tinywasm/src/'; P='crates/parser/src/'; Y='crates/types/src/'
E=T+'interpreter/executor.rs'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    props.append(d)
HK='construct an executor frame over a given instruction array without the parser (cfg tinywasm_verif)'

p('C01','Integer instructions compute the specified function of their operands',
 "For every operand value, every i32/i64 arithmetic, bitwise, shift, rotate, comparison, test, count, sign-extension, wrap/extend and wide-arithmetic instruction pushes exactly the result the WebAssembly specification defines and consumes exactly its operands. Division and remainder trap exactly when the specification says (zero divisor, signed overflow of the quotient) and never otherwise. No operand value makes the host panic.",
 ['inputs'],'all operand bit patterns of every integer instruction (2^64..2^256 per instruction)',
 'The spec suite samples a few dozen operand tuples per instruction; a wrong result for an unlisted operand (a shift count of 63, one divisor) passes it.',
 [E,T+'interpreter/num_helpers.rs',T+'interpreter/stack/value_stack.rs',P+'visit.rs'],
 [('instruction dispatch',E+' exec()'),('checked division helpers',T+'interpreter/num_helpers.rs'),('wide arithmetic',T+'interpreter/num_helpers.rs'),('opcode mapping',P+'visit.rs')],
 ['function results through Function::call'],HK)
p('C02','Float and conversion instructions compute the specified function',
 "For every operand bit pattern, every f32/f64 arithmetic, min/max, rounding, sign, comparison, promotion/demotion, reinterpretation, int-to-float and trapping or saturating float-to-int instruction yields the result the WebAssembly specification defines, up to the NaN payloads the specification leaves open. Trapping truncations trap exactly for NaN and for values whose truncation does not fit, with the right trap for each. Signed zeros, infinities and boundary values are treated as specified.",
 ['inputs'],'all operand bit patterns of every float and conversion instruction',
 'Tests sample a few hundred bit patterns; rounding boundaries and the 2^31/2^63 truncation limits are single points in a 2^64 space.',
 [E,T+'interpreter/num_helpers.rs',T+'interpreter/no_std_floats.rs'],
 [('float helpers tw_minimum/tw_maximum/nearest',T+'interpreter/num_helpers.rs'),('checked conversions',T+'interpreter/num_helpers.rs checked_conv_float!'),('dispatch',E+' exec()')],
 ['function results through Function::call'],HK)
p('C03','SIMD instructions compute the specified lane-wise function',
 "For every v128 operand, every fixed-width SIMD instruction (splat, extract/replace lane, shuffle/swizzle, bitwise, shifts, integer and float arithmetic, saturation, comparison, narrowing/widening, dot product, conversions) yields in every lane the value the WebAssembly specification defines, up to NaN payloads. Relaxed SIMD instructions yield one of the results the specification permits.",
 ['inputs'],'all v128 operand values of every vector instruction',
 'The vector suite checks a few lane patterns per instruction; a 2^256 operand space with 16 lanes has most lane/value combinations unvisited.',
 [T+'interpreter/simd/instructions.rs',T+'interpreter/simd/macros.rs',T+'interpreter/simd/utils.rs',E],
 [('lane kernels',T+'interpreter/simd/instructions.rs'),('lane macros',T+'interpreter/simd/macros.rs'),('dispatch',E+' exec()')],
 ['function results through Function::call'],HK)
p('C04','Loads and stores touch exactly the addressed bytes or trap',
 "For every base address, static offset, access width and memory size, on 32-bit and 64-bit memories, a load or store (scalar, narrow, vector, lane) accesses exactly the bytes [base+offset, base+offset+width) computed without wraparound, in little-endian order with the specified extension. If any of those bytes lies outside the memory it traps out-of-bounds and changes no byte, and no other byte ever changes.",
 ['inputs','configurations'],'all (base, offset, width, memory length, memory index width, memory contents)',
 'Tests probe a handful of addresses near page boundaries; address+offset overflow and the fused load/store forms have their own arithmetic and are hit at few points.',
 [E,T+'store/memory/instance.rs',T+'store/memory/mod.rs',T+'interpreter/values.rs'],
 [('effective_addr',T+'store/memory/instance.rs'),('pop_memory_addr',E),('exec_mem_load/exec_mem_store and fused forms',E),('MemValue LE conversion',T+'store/memory/mod.rs')],
 ['linear memory contents and function results'],HK)
p('C05','Every memory backend behaves as one flat zero-initialised byte array',
 "Contiguous, paged (for every chunk size) and lazily allocated memories are observationally identical: after any sequence of reads, writes, fills, copies within or between memories, initialisations and grows, every byte equals the last value written to it, or zero if never written. Newly grown bytes read as zero, out-of-range requests are refused without modifying anything, and overlapping copies behave as if through a temporary.",
 ['inputs','histories','configurations'],'all operation sequences, addresses, lengths and chunk sizes',
 'Backend unit tests use fixed chunk sizes and a few accesses; chunk-straddling offsets, overlapping copies across chunk boundaries and growth that shares a partial chunk depend on unsampled combinations.',
 [T+'store/memory/vec.rs',T+'store/memory/paged.rs',T+'store/memory/lazy.rs',T+'store/memory/mod.rs'],
 [('VecMemory',T+'store/memory/vec.rs'),('PagedMemory chunk arithmetic',T+'store/memory/paged.rs'),('LazyLinearMemory',T+'store/memory/lazy.rs'),('LinearMemory contract',T+'store/memory/mod.rs')],
 ['Memory host API, loads/stores'])
p('C06','memory.grow and memory.size report and change the size exactly',
 "For every page size, current size, maximum and requested delta, a grow either returns the previous size in pages and enlarges the memory by exactly delta zeroed pages preserving all contents, or returns -1 and changes nothing; it fails exactly when the new size would exceed the declared or representable maximum or the backend or configuration refuses. The reported size always equals the accessible length divided by the page size, and never exceeds the maximum.",
 ['inputs','histories','configurations'],'all deltas (full 32/64-bit range), sizes, maxima, page sizes, allocation refusals',
 'Tests grow by small constants; deltas with the sign bit set, deltas that overflow the byte size, and custom page sizes near the limits are not sampled.',
 [T+'store/memory/instance.rs',E,Y+'lib.rs'],
 [('MemoryInstance::grow',T+'store/memory/instance.rs'),('exec_memory_grow/size',E),('MemoryType limits',Y+'lib.rs')],
 ['memory.size / memory.grow results, host Memory API'],HK)
p('C07','Bulk memory instructions are exact and all-or-nothing',
 "For every operand triple, memory.copy, memory.fill and memory.init (same or different memories, 32- or 64-bit) either write exactly the specified bytes, with overlap behaving as if through a temporary, or trap out-of-bounds without modifying any byte. Ranges are interpreted as unsigned and compared without wraparound, a zero length is in bounds exactly up to the end inclusive, and a dropped data segment behaves as empty. No operand makes the host panic.",
 ['inputs','configurations'],'all (dst, src, len) triples, segment lengths, memory lengths and index widths',
 'The suite checks some boundary triples; wraparound of dst+len and src+len and addresses above 2 GiB need specific unsampled values.',
 [E,T+'store/memory/instance.rs',T+'store/memory/mod.rs',T+'store/data.rs',P+'visit.rs'],
 [('exec_memory_copy/fill/init',E),('memory copy between instances',T+'store/memory/instance.rs'),('operand declaration',P+'visit.rs')],
 ['linear memory contents and traps'],HK)
p('C08','Table instructions are exact, bounded and all-or-nothing',
 "For every index and length, table.get/set/size/grow/fill/copy/init and elem.drop read or write exactly the specified elements, or trap without modifying any element; grow returns the previous size and fills new slots with the given reference, or returns -1 and changes nothing when the maximum would be exceeded. References read back are the ones written, across modules that share a table, and a dropped element segment behaves as empty.",
 ['inputs','histories','programs'],'all indices, lengths, table sizes and limits, and operation sequences',
 'Tests use small tables and a few triples; the sharing of one table between modules with different function index spaces and boundary lengths are sampled thinly.',
 [T+'store/table.rs',E,T+'store/element.rs'],
 [('TableInstance operations',T+'store/table.rs'),('exec_table_*',E),('element segments',T+'instance.rs')],
 ['table contents through host API and call_indirect'],HK)
p('C09','Calls, tail calls and indirect calls pass exactly the right values',
 "For every callee signature and value, a direct, self, indirect or tail call to a wasm or host function gives the callee exactly the caller's arguments in order, gives declared locals zero or null, and hands exactly the results back, leaving the rest of the caller's operands and locals untouched. An indirect call traps exactly when the index is out of range, the slot is null or the signature differs structurally, and otherwise runs exactly the function in the slot in its own instance. A tail call returns the callee's results to the caller's caller and uses no additional frame, for host callees as well.",
 ['programs','inputs'],'all call graphs, signatures over the value types, argument values and table contents',
 'Tests cover some signatures; values live in three separate lanes, so each mix of 32/64/128-bit parameters, locals and pending operands is a separate layout.',
 [E,T+'interpreter/stack/call_stack.rs',T+'interpreter/stack/value_stack.rs',P+'visit.rs'],
 [('exec_call*/exec_return_call*',E),('enter_locals / truncate_keep',T+'interpreter/stack/value_stack.rs'),('frame push/pop',T+'interpreter/stack/call_stack.rs')],
 ['function results, host function arguments'],HK)
p('C10','Structured control flow keeps its meaning after lowering',
 "For every validated function body, execution of blocks, loops, if/else, br, br_if, br_table, return and code after unconditional branches follows the WebAssembly structured semantics: each branch goes to the label it names, carries exactly the label's values in order and discards everything above the label's entry height in every value class. Branch tables use the default for every out-of-range index, and dead code has no effect.",
 ['programs','inputs'],'all nestings of structured instructions with arbitrary block types and operand stacks',
 'The suite contains fixed shapes; the number of kept and dropped values in each of the three value lanes and label depth multiply into shapes no test has.',
 [P+'visit.rs',E,T+'interpreter/stack/value_stack.rs'],
 [('control frame lowering and patching',P+'visit.rs'),('DropKeep emission',P+'visit.rs'),('jump, branch_table, drop_keep execution',E)],
 ['function results'],HK)
p('C11','Parser rewrites and fused instructions never change results',
 "For every validated module, the program TinyWasm runs after its peephole and superinstruction rewriting produces the same results, traps, memory, table and global effects as the unrewritten program, for all inputs; in particular every instruction it fuses has the combined effect of its parts. Enabling or disabling optimizer options is unobservable apart from speed and fuel.",
 ['programs','inputs','configurations'],'all instruction sequences, constants, local indices, memory kinds and branch targets',
 'Fusions fire only for particular constants, index relations (same local twice, an address local equal to the destination) and absence of branch targets between parts; tests sample few of the combinations.',
 [P+'optimize.rs',P+'visit.rs',E,Y+'instructions.rs'],
 [('rewrite rules',P+'optimize.rs'),('visit-time peepholes',P+'visit.rs'),('superinstruction execution',E)],
 ['function results, memory, globals'],HK)
p('C12','Stack limits are enforced exactly, as traps',
 "With any configured stack sizes, fixed or growing, a program whose values and frames fit within the limits runs unaffected by the limits, and one that would exceed a limit ends in a stack-overflow trap, at the same point every time, with no host panic, no host stack growth proportional to wasm depth and no memory growth beyond the configured maximum. Unbounded recursion always ends in that trap.",
 ['programs','configurations','histories'],'all stack configurations, call depths and operand heights in each value class',
 'Tests exercise the default limits with one recursion shape; off-by-one behaviour at each limit of each lane, and each growth step, is unsampled.',
 [T+'interpreter/stack/value_stack.rs',T+'interpreter/stack/call_stack.rs',T+'engine.rs'],
 [('Stack push / enter_locals capacity checks',T+'interpreter/stack/value_stack.rs'),('CallStack::push',T+'interpreter/stack/call_stack.rs'),('StackConfig',T+'engine.rs')],
 ['Trap::ValueStackOverflow / Trap::CallStackOverflow, results'],HK)
p('C13','Slicing execution by fuel is unobservable and bounded',
 "Running a function in any number of fuel slices gives the same results, traps, memory effects and host calls as running it at once, with each instruction executed exactly once. A slice executes at most about its fuel's worth of instructions before suspending, always makes progress for nonzero fuel, and a suspended execution can be resumed until completion. Fuel charged by host functions counts against the slice.",
 ['programs','histories','schedules'],'all programs, all splits of the execution into fuel slices, both fuel policies',
 'Tests resume a couple of programs with one slice size; suspension between any two instructions (mid-call, mid-loop, after a tail call) is a different history each.',
 [E,T+'func.rs',T+'interpreter/mod.rs',T+'engine.rs'],
 [('budgeted run loop',E+' run_with_fuel'),('FuncExecution::resume*',T+'func.rs'),('fuel policy',T+'engine.rs')],
 ['ExecProgress, results, host call trace'],HK)
p('C14','Globals hold exactly the last value written and respect mutability',
 "For every value type and bit pattern, reading a global from wasm or from the host returns the initialiser's value or exactly the last value written by wasm or host, in whichever instance; imported globals are shared, not copied. The host can set only mutable globals and only with a value of the global's type; a refused write changes nothing.",
 ['inputs','histories'],'all value types, bit patterns, sharing graphs and write sequences',
 'Tests use a few integers; NaN payloads, v128 values, references and sharing between instances are rarely combined.',
 [E,T+'store/global.rs',T+'store/mod.rs',T+'reference.rs'],
 [('exec_global_get/set*',E),('set_global_val',T+'store/mod.rs'),('Global host API',T+'reference.rs')],
 ['Global::get/set, function results'],HK)
p('C15','Handles only work with the store that created them',
 "Every operation that takes a store together with a handle (instance, function, memory, table, global, import, suspended execution) created by a different store fails with an invalid-store error and modifies neither store; with its own store it acts on the object it was created for. This includes handles reached indirectly, such as imports offered at instantiation and function handles derived from references.",
 ['histories','programs'],'all pairs of stores, handle kinds and operations',
 'Tests try a few handle kinds with a foreign store; every operation has its own check that can be missing or compare the wrong thing.',
 [T+'reference.rs',T+'store/mod.rs',T+'func.rs',T+'instance.rs',T+'imports.rs'],
 [('StoreItem::validate_store',T+'reference.rs'),('ModuleInstance::validate_store',T+'instance.rs'),('Imports::link',T+'imports.rs')],
 ['Error::InvalidStore'])
p('C16','Linking accepts exactly the type-compatible imports',
 "Instantiation with a given set of imports succeeds only if every import is present with the right kind and a compatible type: identical function signature, identical global type and mutability, and for tables and memories equal element or index type and page size with current size at least the required minimum and maximum within the required maximum. An import that satisfies these rules is accepted, one that does not is rejected with a linking error naming it, and a rejected instantiation adds nothing callable.",
 ['inputs','configurations','programs'],'all pairs of required and offered extern types, including all limit combinations',
 'Tests cover some mismatches; limit comparisons are inequalities over 64-bit values with an optional maximum, of which boundaries are rarely sampled.',
 [T+'imports.rs',Y+'lib.rs'],
 [('compare_types / compare_table_types / compare_memory_types',T+'imports.rs'),('Imports::link',T+'imports.rs')],
 ['LinkingError, instantiation result'])
p('C17','The host boundary checks and transports values exactly',
 "Calling a wasm function from the host, typed or untyped, is rejected unless argument count and types match its signature exactly, and a host function whose returned values do not match its declared type yields an error and never corrupts the caller. When they match, every argument and result of every type arrives bit-exactly and in order in both directions, through typed tuples and untyped lists alike, and a typed handle can be obtained exactly for the function's signature.",
 ['inputs','programs'],'all signatures over the value types, argument lists and bit patterns, both directions',
 'Tests use a few signatures; order and lane placement depend on the exact mix of types and NaN payload preservation on the exact bits.',
 [T+'func.rs',T+'interpreter/values.rs',T+'interpreter/stack/value_stack.rs',Y+'value.rs',E],
 [('Function::call validation',T+'func.rs'),('tuple conversions IntoWasmValues/FromWasmValues',T+'func.rs'),('pop_types/extend_from',T+'interpreter/stack/value_stack.rs'),('host call path',E)],
 ['call results, host function arguments, errors'])
p('C18','Instantiation initialises exactly what the module declares',
 "A successful instantiation evaluates every constant expression as specified, initialises globals, tables and memories exactly as the module's segments prescribe and in the specified order, drops active segments, and runs the start function exactly once after everything else. An out-of-bounds active segment traps with earlier segments' writes kept, and no failing instantiation makes the host panic, then or later.",
 ['programs','inputs','histories'],'all modules: constant expressions, segment offsets and lengths, imports, start functions',
 'Tests use well-formed segments and few constant expressions; boundary offsets and failing instantiations followed by further use of shared objects are unsampled.',
 [T+'instance.rs',T+'store/mod.rs',P+'conversion.rs'],
 [('instantiate_no_start',T+'instance.rs'),('init_elements/init_data/eval const',T+'store/mod.rs')],
 ['memory, table, global contents; traps'])
p('C19','Archiving a module and loading it back preserves its behaviour',
 "For every module produced by the parser, serialising it to the archive format and loading it back yields a module equal to the original: same imports, exports, types, segments and, when run, the same behaviour. Bytes without the archive's magic and exact version, or truncated, are rejected with an error.",
 ['programs','inputs'],'all parsed modules; all byte strings shorter than or differing in the header',
 'Tests round-trip a few example modules; each instruction variant, type and limit combination has its own encoding path.',
 [Y+'archive.rs',Y+'instructions.rs',Y+'lib.rs'],
 [('serialize_twasm/try_from_twasm',Y+'archive.rs'),('serde derives',Y+'instructions.rs')],
 ['Module::serialize_twasm / Module::try_from_twasm'])
p('C20','References keep their identity and nullness everywhere',
 "For every reference value, storing it in a local, global, table or argument and reading it back yields the same reference: null stays null, and a non-null reference stays non-null with the same identity. ref.is_null is true exactly for null, ref.func denotes exactly the named function of the executing instance, and a function reference handed to the host or another instance still denotes that function.",
 ['inputs','programs'],'all reference values (the full identity range), all storage locations and module pairs',
 'Tests use a couple of references; null is an encoding inside the integer space, and module-local versus store-wide function numbering coincide in single-module tests.',
 [Y+'value.rs',Y+'reference.rs',T+'interpreter/values.rs',E,T+'store/table.rs'],
 [('FuncRef/ExternRef encoding',Y+'value.rs'),('ref lane conversions',T+'interpreter/values.rs'),('exec ref.func/ref.is_null',E)],
 ['results, table contents, host values'],HK)
p('C21','A trap or nested call never corrupts later executions',
 "After any call ends in a trap or host error, the store remains usable: later calls behave as if run in a store whose memories, tables and globals hold the values present at the trap. Reentrant calls made by host functions behave like ordinary calls and leave the outer execution's operands, locals and frames untouched, whether they return, trap or fail, and a direct call during an active one, or resuming a finished or failed execution, is refused with an error.",
 ['histories','programs'],'all interleavings of calls, traps at any depth, reentrant calls and suspended executions',
 'Tests reuse a store after one trap shape; leftover operands or frames only matter for particular later histories.',
 [T+'func.rs',E,T+'interpreter/mod.rs',T+'store/mod.rs'],
 [('stack clearing / call_stack_base',T+'func.rs'),('reentrant call',T+'func.rs FuncContext::call'),('resume state',T+'func.rs')],
 ['results of later calls'],HK)
p('C22','Host access to memories and tables is bounded and exact',
 "For every offset and length, the host-side memory and table operations (read, write, copy, fill, load and store of typed values, string reads, cursors, get/set/grow) act on exactly the requested range or return an error and change nothing, agreeing byte for byte with what wasm code observes. No argument makes them panic.",
 ['inputs','configurations'],'all offsets, lengths, memory sizes and backends',
 'Tests call these with in-range constants and one or two out-of-range ones; usize-overflowing ranges and end-of-memory boundaries are unsampled.',
 [T+'reference.rs',T+'store/memory/instance.rs',T+'store/memory/mod.rs'],
 [('Memory/Table host API',T+'reference.rs'),('MemoryInstance range checks',T+'store/memory/instance.rs'),('MemoryCursor',T+'reference.rs')],
 ['host API results'])
p('C23','Parallel and sequential parsing produce the same module',
 "For every input, parsing with any number of worker threads and any scheduling of them yields the same module or the same rejection as sequential parsing.",
 ['schedules','inputs'],'all thread schedules and all modules',
 'Tests parse with whatever schedule the machine produces.',
 [P+'parallel.rs',P+'module.rs'],[('chunked parallel parsing',P+'parallel.rs')])
p('C24','Invalid or malformed wasm is always rejected and never panics the parser',
 "For every byte string, parsing either returns a module whose code is valid WebAssembly under the enabled features or returns an error; it never panics.",
 ['inputs'],'all byte strings',
 'Tests use the malformed modules of the suite.',
 [P+'lib.rs',P+'module.rs',P+'visit.rs'],[('validation through wasmparser',P+'module.rs')])
p('C25','Module metadata describes exactly what the module declares',
 "The imports, exports and their types reported for a parsed module, and the exported objects looked up by name on an instance, are exactly those the module declares: same names, kinds, order, index and type; a lookup of an absent name or wrong kind fails with an error.",
 ['programs'],'all import/export lists, including imported-and-re-exported entities',
 'Tests look up a few exports; index-space offsets by imports of each kind vary per module.',
 [Y+'lib.rs',T+'instance.rs',P+'module.rs',P+'conversion.rs'],
 [('Module::imports/exports',Y+'lib.rs'),('ModuleInstance::export lookups',T+'instance.rs')],
 ['Module::exports/imports, ModuleInstance lookups'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
open(out,'w').write('\n'.join(json.dumps(x) for x in props)+'\n')
print(len(props))
