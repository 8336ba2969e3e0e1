"""What each check runs. Levels: 'proof' checks have deductive obligations and a bounded companion."""
GEN = 'Modules are generated at random (typed generator over every instruction class the property names), instantiated in tinywasm with a random configuration (memory backend, optimizer passes on or off, archive round trip, stack configuration, fuel policy) and driven by a random sequence of host calls; every result, trap, host-call trace and the whole contents of memories, tables and globals is compared after every step with the specification semantics. A case counts as distinct and non-trivial when its modules, configuration and call sequence differ from every other case of the run and at least one comparison was made.'
OPS = 'Modules with 24 single-instruction functions; operands come from parameters, constants, locals or globals, results are left above sentinel values or consumed by a branch or local; each function is called with 6 operand tuples chosen from boundary values and random bits, and its results are compared with the specification function. '
def P(level, bounded, rule=GEN, secs=(14, 240), **k): return dict(level=level, bounded=bounded, rule=rule, secs=secs, kani=k.get('kani', False), verus=k.get('verus', []), **{x: y for x, y in k.items() if x not in ('kani', 'verus')})
TRUSTED = ['rustc and the Rust standard library', 'the specification functions in /verif/spec', 'the reference semantics in /verif/native (bounded part only)']
PROPS = {
 'C01': P('proof', 'random operands, not all operands', OPS + GEN, kani=True),
 'C02': P('proof', 'random operands, not all operands', OPS + GEN, kani=True),
 'C03': P('proof', 'random operands, not all operands', OPS + GEN, kani=True),
 'C04': P('proof', 'random addresses and memory contents', kani=True),
 'C05': P('proof', 'random operation sequences per backend', kani=True),
 'C06': P('proof', 'memories of at most 64 MiB', kani=True),
 'C07': P('proof', 'random ranges', kani=True),
 'C08': P('proof', 'random operation sequences', kani=True),
 'C09': P('proof', 'call depth at most 300', kani=True),
 'C10': P('proof', 'functions of at most a few hundred instructions', kani=True),
 'C11': P('proof', 'functions of at most a few hundred instructions', kani=True),
 'C12': P('proof', 'call depth at most 300, stacks sized around the peak use', kani=True),
 'C13': P('proof', 'runs of at most 2 000 000 instructions', verus=['vfuel'], technique='contracts and loop invariants on the run loops and the fuel accounting, cut out of the source and discharged by Verus/Z3 for every program and every amount of fuel; bounded native stand-in beside it'),
 'C14': P('proof', 'random operation sequences', kani=True),
 'C15': P('exploration', 'every public operation of the listed handle kinds, two stores'),
 'C16': P('proof', 'random import and export types', kani=True, technique='contracts on the import type comparisons, discharged for all types and limits by Kani/CBMC; bounded native stand-in beside it'),
 'C17': P('exploration', 'a fixed family of typed signatures and random untyped ones'),
 'C18': P('exploration', 'up to three modules linked to each other'),
 'C19': P('exploration', 'random modules'),
 'C20': P('proof', 'random operation sequences', kani=True),
 'C21': P('exploration', 'host re-entry depth at most 60'),
 'C22': P('exploration', 'random operation sequences'),
 'C25': P('exploration', 'random modules'),
}
HOOKS = {'guard': 'tinywasm_verif', 'enable': 'RUSTFLAGS=--cfg tinywasm_verif (set by tools/proof.py for the proof builds only)', 'source_commits': ['8d46ea6529570008fc831e0570bc3ba9c45a0c4f', 'f00636fae579d55f3042ed4741b8c78c351a97b1']}
KANI = 'contracts on the compiled interpreter arms, discharged for all operands by Kani/CBMC (CaDiCaL, cvc5); bounded native stand-in beside it'
NOTES = {
 'C05': 'Contracts on the real memory implementations: fixed-width reads and writes of the contiguous memory (any length, any address), the fixed-width default methods over any memory with short reads and writes, and every method of the lazy memory, materialised or not, over any memory. Range operations of the contiguous memory (up to 12 bytes), the chunked memory (three chunks of two or four bytes) and the range default methods (up to 3 bytes) are bounded, labelled so; copies within the chunked memory are only in the bounded native part.',
 'C01': 'Every i32/i64 instruction (constants and wide arithmetic included) has a contract over the real exec arm with symbolic operands and stack contents: result, trap, operands consumed, frame. The run loop and the lowering are only covered by the bounded part.',
 'C02': 'As C01, for float and conversion instructions. sqrt and nearest are only in the bounded part: CBMC has no exact model of sqrt and the float remainder.',
 'C03': 'As C01, for v128 instructions, lanes, shuffles and relaxed instructions included (any lane, any immediate). Four lane-product instructions are only in the thorough tier; float sqrt/nearest and relaxed multiply-add are only in the bounded part.',
 'C04': 'Every load and store (scalar, SIMD, lane; 32- and 64-bit memories) has a contract over the real exec arm, with the memory replaced by the contract of LinearMemory: any length, any contents, any address and offset. The memory implementations themselves are C05.',
 'C06': 'memory.size and memory.grow have contracts against any memory, any declared maximum, page sizes 1, 65536 and unset, with and without trapping on out-of-memory. The host-side handles and the limits of the backends are only in the bounded part.',
 'C07': 'memory.fill, memory.init, data.drop and memory.copy within one memory have contracts for all ranges and lengths; memory.copy between two memories is bounded to 4100 bytes (two buffers), labelled bounded.',
 'C08': 'Every table and element-segment instruction has a contract over the real exec arm against tables of any size (table.get/set/size/init, copies between tables, every failing case: any size); copies within one table are bounded to six elements, fills to three, successful grows to the listed amounts, labelled bounded. The host-side handles are only in the bounded part.',
 'C09': 'Local reads and writes of the 32-bit class have contracts for any depth and any local. Calls, self calls, tail calls and indirect calls, and returns to the caller, have contracts over the real exec arms: arguments of any values in order, zeroed locals, the frame saved and restored, the instance of the callee, the traps of indirect calls (any index, any table size, any two types of up to two values); they are bounded to value stacks of seven cells and call stacks of at most four frames, labelled bounded. Host callees are only in the bounded part.',
 'C12': 'A push onto a fixed stack has a contract for any capacity and depth; pushes onto growing stacks, frame entry and calls have contracts at the listed sizes (labelled bounded): what fits is unaffected, what does not traps with nothing pushed, and no stack grows beyond its maximum. That recursion of any depth ends in the trap follows from the call contract, and is run natively in the bounded part.',
 'C13': 'The run loops (to completion; with fuel) and the fuel accounting (call surcharge, host charges, remaining fuel) are cut out of the source on every run and verified by Verus for any program and any fuel: a run is suspended only when it is not over and the fuel is used up, and then hands back the frame it stopped at; it makes progress; it takes no more steps than fuel, but for the rest of a chunk of 128. One step is an assumed contract (it does not add fuel; the run is over when it completes or traps). That a suspended and resumed run ends as an unlimited one does is only in the bounded part.',
 'C16': 'The comparisons that decide whether an import is satisfied have contracts for memories, tables (any index type, page size, limits and current size) and globals (any type and mutability): accepted exactly if compatible, else the linking error. Function signatures, the lookup by name and what a rejected instantiation leaves are only in the bounded part.',
 'C10': 'Every jump, branch table (any targets, any index), drop, select and return has a contract over the real exec arm: destination, values kept and their order, what goes away and what stays. Forms moving several values are bounded to seven cells per class, labelled bounded. That the lowering gives each branch the right destination and counts is only covered by the bounded part.',
 'C14': 'Every global instruction (all value classes, any module-to-store numbering) has a contract over the real exec arm. The host-side handles are only in the bounded part.',
 'C20': 'ref.null, ref.func, ref.is_null have contracts over the real exec arm; tables and globals holding references are C08 and C14. References crossing the host boundary are only in the bounded part.',
 'C11': 'Every fused arithmetic, comparison, branch, constant and memory form has a contract: same effect as the sequence it stands for, any local indices (32-bit: any stack depth; 64/128-bit: at most seven cells in the quick tier, labelled bounded, any depth in the thorough tier). That the optimizer picks a fused form only for the sequence it stands for is only covered by the bounded part (optimized against unoptimized against reference).',
}
for _k, _p in PROPS.items():
    if _p['level'] == 'proof': _p.setdefault('technique', KANI); _p['note'] = NOTES[_k]
    _p.setdefault('technique', 'bounded stand-in: native execution against the specification semantics')
    _p.setdefault('note', 'Bounded: ' + _p['bounded'] + '. Nothing is proved.')
