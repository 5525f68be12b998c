"""Which contracts decide which property."""
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def harnesses(unit, module, common=False):
    """Every #[kani::proof] of a harness module, macros expanded by name."""
    s = open(os.path.join(VERIF, "units", "sdk", module + ".rs") if common else os.path.join(VERIF, "units", unit, "vp", module + ".rs")).read()
    names = re.findall(r"#\[kani::proof\](?:\s*#\[[^\]]*\])*\s*(?:pub )?fn (\w+)\(", s)
    for body in re.findall(r"(?m)^(?:by_\w+|reg_\w+|contracts_\w+)! \{([^}]*)\}", s):
        names += re.findall(r"(\w+) =", body)
    return [f"vp::{'common::' if common else ''}{module}::{n}" for n in names]


STUBS_RUNNER = [
    "Kani 0.68 / CBMC 6.11 / CaDiCaL and rustc's MIR",
    "stub im: HashMap/HashSet are finite maps, persistent under clone (stubs/im)",
    "stub plonky2: GoldilocksField arithmetic, Poseidon2 permutation uninterpreted (stubs/plonky2)",
    "stub anyhow, env_logger, elf; log compiled with max_level_off",
    "bitfield 0.16.1, itertools, serde derive: real crates, compiled and proved through",
]

PROPS = {}
PROPS["R01"] = dict(
    groups=[dict(unit="runner", harnesses=harnesses("runner", "r01"))],
    functions=["runner/src/decode.rs: decode_instruction, extract_immediate, InstructionBits accessors",
               "runner/src/instruction.rs: Instruction::new"],
    trusted=STUBS_RUNNER,
    assumptions=["pc is a multiple of 4 (the code image is decoded at word addresses)"],
)

VM = ["runner/src/vm.rs: State::execute_instruction (and the ExecutionRecord's Aux)"]
STEP_ASSUME = ["clk < u64::MAX; register numbers < 32 (established by R01); x0 = 0 (preserved by every contract here)",
               "overflow and other panics in the step are obligations too (debug build semantics)"]
PROPS["R02"] = dict(
    groups=[dict(unit="runner", harnesses=harnesses("runner", "r02"))],
    functions=VM + ["runner/src/state.rs: register_op, set/get_register_value, bump_pc, bump_clock"],
    trusted=STUBS_RUNNER, assumptions=STEP_ASSUME)
_r03 = harnesses("runner", "r03")
PROPS["R03"] = dict(
    groups=[dict(unit="runner", harnesses=[h for h in _r03 if "whole_" not in h],
                 fallback={h: h.replace("step_", "whole_") for h in _r03 if "step_" in h and not h.endswith("step_mul")})],
    functions=VM + ["runner/src/vm.rs: mulh, mulhu, mulhsu, div, divu, rem, remu"],
    trusted=STUBS_RUNNER + ["z3-new (bit-vectors) for the division leaves"], assumptions=STEP_ASSUME)
PROPS["R04"] = dict(
    groups=[dict(unit="runner", harnesses=harnesses("runner", "r04"))],
    functions=VM + ["runner/src/vm.rs: jalr", "runner/src/state.rs: branch_op, set_pc"],
    trusted=STUBS_RUNNER, assumptions=STEP_ASSUME + ["pc is even"])
PROPS["R05"] = dict(
    groups=[dict(unit="runner", harnesses=harnesses("runner", "r05"))],
    functions=VM + ["runner/src/state.rs: memory_load, load_u8", "runner/src/vm.rs: lb, lbu, lh, lhu, lw"],
    trusted=STUBS_RUNNER, assumptions=STEP_ASSUME)
_r06 = harnesses("runner", "r06")
PROPS["R06"] = dict(
    groups=[dict(unit="runner", harnesses=_r06, kind={h: "noreturn" for h in _r06 if "::ro_" in h})],
    functions=VM + ["runner/src/vm.rs: store", "runner/src/state.rs: store_u8, load_u8, load_u32"],
    trusted=STUBS_RUNNER, assumptions=STEP_ASSUME)
PROPS["R07"] = dict(
    groups=[dict(unit="runner", harnesses=harnesses("runner", "r07"))],
    functions=VM + ["runner/src/vm.rs: current_instruction, store, jalr", "runner/src/state.rs: register_op, branch_op, memory_load"],
    trusted=STUBS_RUNNER, assumptions=STEP_ASSUME)
PROPS["R08"] = dict(
    groups=[dict(unit="runner", harnesses=harnesses("runner", "r08"), bounded=harnesses("runner", "r08"))],
    verus=["read_bytes", "ecall_read"],
    bounded=["in addition to the proof, over the compiled code and through the ecall's dispatch: tapes of at most 3 bytes at any position with any request; "
             "commitment tapes with requests of at most 3 bytes",
             "read (Kani stand-in for the Verus contract): tapes of at most 64 bytes"],
    functions=["runner/src/state.rs: read_bytes, get_register_value, get_pc, set_pc, bump_pc, bump_pc_n (Verus)", "runner/src/ecall.rs: ecall_read (Verus, tapes of any size)",
               "runner/src/ecall.rs: ecall (dispatch, Kani)"],
    trusted=STUBS_RUNNER + ["Verus and vstd; slice::to_vec assumed to copy every element", "in the Verus part: store_u8's contract (checked by Kani, R06); memory as a map; "
                            "the recorded details other than the read's are one opaque value",
                            "extraction: iterator chains of the form (0..n).map(..).collect() and v.iter().enumerate().fold(..) become calls of functions proved in the unit"],
    explanation="read_bytes and ecall_read are proved for tapes and requests of any size (Verus, extracted from the current source); the dispatch by ecall number is "
                "checked over all machine states for tapes of at most 3 bytes (bounded)",
    assumptions=["no byte of the buffer is read-only (a read-only byte stops the machine, R06)", "clk < u64::MAX; x0 = 0"])
_r09 = harnesses("runner", "r09")
PROPS["R09"] = dict(
    groups=[dict(unit="runner", harnesses=_r09, kind={"vp::r09::panic": "noreturn"},
                 bounded=["vp::r09::panic", "vp::r09::trace_log"])],
    bounded=["panic and trace_log: messages of at most 2 bytes"],
    functions=VM + ["runner/src/ecall.rs: ecall, ecall_halt, ecall_panic, ecall_trace_log"],
    trusted=STUBS_RUNNER, assumptions=STEP_ASSUME + ["a logged message does not run past the end of the address space"])
_r10 = harnesses("runner", "r10")
PROPS["R10"] = dict(
    verus=["sponge", "ecall_hash"], execs=[("runner", "hash")],
    groups=[dict(unit="runner", harnesses=_r10, bounded=_r10)],
    bounded=["in addition to the proof: inputs of 8, 16 and 24 elements (1, 2 and 3 blocks), symbolically",
             "in addition to the proof of the hash call: 3000 generated calls of up to 48 bytes at any addresses, executed"],
    functions=["runner/src/poseidon2.rs: hash_n_to_m_no_pad, ecall_poseidon2 (Verus, any number of blocks, any addresses)"],
    explanation="the sponge is proved for any number of blocks over an arbitrary permutation, and the call against the sponge's contract: which bytes it reads, "
                "where the digest goes, what is recorded and that nothing else changes (Verus, extracted from the current source)",
    trusted=STUBS_RUNNER + ["the Poseidon2 permutation is uninterpreted", "Verus and vstd; chunks, squeeze and the conversions between slices and arrays assumed to do "
                            "what core and plonky2 document; a digest has 32 bytes", "in the Verus part of the call: load_u8's and store_u8's contracts (checked by Kani, R05, R06); memory as a map",
                            "extraction: iterator chains of the form (0..n).map(..).collect(), chain!(..) and izip!(0.., v).fold(..) become calls of functions proved in the unit"],
    assumptions=["at least one block", "no byte at the digest's address is read-only (a read-only byte stops the machine, R06)"])
PROPS["R11"] = dict(
    verus=["step"],
    groups=[dict(unit="runner", harnesses=harnesses("runner", "r11"), bounded=harnesses("runner", "r11"))], execs=[("runner", "run")],
    bounded=["in addition to the proof: symbolic runs of up to 3 arbitrary steps; 10000 generated programs of up to 80 steps, executed"],
    functions=["runner/src/vm.rs: step (Verus, runs of any length)", "runner/src/state.rs: has_halted (Verus)"],
    explanation="step is proved for runs of any length (Verus, extracted from the current source); the debug-only step limit and the opcode statistics are dropped "
                "from the extraction and covered by the bounded checks only",
    trusted=STUBS_RUNNER + ["Verus and vstd", "a step is a function of program and state (its content: R02 to R10); cloning a state gives an equal state",
                            "extraction: logging, `if cfg!(debug_assertions) {..}` and `if option_env!(..).is_some() {..}` statements are dropped"],
    assumptions=["the clock does not reach the debug build's limit of 1000000 steps"])
_r12 = harnesses("runner", "r12")
PROPS["R12"] = dict(
    level="other",
    groups=[dict(unit="runner", harnesses=_r12, optional=[("runner/src/elf.rs", r"fn internal_load_elf\(")])], execs=[("runner", "elf")],
    bounded=["contents: 4000 generated files with up to 4 segments of up to 28 bytes", "refusals, in addition to their contract: 8000 generated files"],
    functions=["runner/src/elf.rs: parse_and_validate_elf, vanilla_load_elf, mozak_load_program", "bounded: internal_load_elf, extract_elf_data", "bounded: runner/src/code.rs: Code::from"],
    explanation="which files are accepted is proved for all headers; what is loaded is bounded: generated files, executed; not counted as proved",
    trusted=STUBS_RUNNER + ["stub elf: the parser's results are arbitrary headers and segments"],
    assumptions=["segments do not overlap, lie in the file, and end before the last word of the address space"])
_r13 = [h for h in harnesses("runner", "r13") if h.split("::")[-1] not in ("start_2_1", "start_2_2")]
PROPS["R13"] = dict(
    level="other",
    groups=[dict(unit="runner", harnesses=_r13, bounded=_r13)], execs=[("runner", "start")],
    bounded=["symbolic: one read-only and one read-write byte, tapes of 2 bytes; by running the code: 3000 programs of up to 6 bytes of each kind"],
    functions=["runner/src/state.rs: State::new, From<Program> for State, StateMemory::new, Default for State", "runner/src/elf.rs: Program::create", "runner/src/code.rs: execute_code_with_ro_memory"],
    explanation="bounded in the size of memory and tapes, complete in addresses and contents; generated programs (executed); not counted as proved",
    trusted=STUBS_RUNNER, assumptions=[])


# ---- SDK
STUBS_SDK = [
    "Kani 0.68 / CBMC 6.11 / CaDiCaL and rustc's MIR",
    "stub rkyv, rkyv_derive: reading an archive gives what was archived (the byte layout of archives is not modelled)",
    "stub plonky2 (host hash: an arbitrary function of the field elements absorbed)",
    "weaving: cfg(target_os = mozakvm) becomes a feature, the ecall instruction a call to the harness; usize has 64 bits instead of the VM's 32",
    "array-concat, vec-entries, once_cell: real crates, compiled and proved through",
]
HEX = "stub serde-hex: bytes as 0x and two hex digits each; serde_json and hex are the real crates"
MEMCMP = ["--cbmc-args", "--unwindset", "memcmp.0:34"]


def sdk(modules, noreturn=r"refuse|^other_|refused$", bounded=r"$^", common=False, thorough_only=(), **kw):
    """Groups over {unit: [module]}."""
    gs = []
    for unit, m in modules.items():
        names = [h for x in m for h in harnesses(unit, x, common)]
        short = lambda h: h.split("::")[-1]
        gs.append(dict(unit=unit, harnesses=names, kind={h: "noreturn" for h in names if re.search(noreturn, short(h))},
                       bounded=[h for h in names if re.search(bounded, short(h))],
                       thorough_only=[h for h in names if short(h) in thorough_only], **kw))
    return gs


BOTH = lambda *m: {"sdk_native": list(m), "sdk_vm": list(m)}
PROPS["S01"] = dict(
    groups=sdk(BOTH("codecs"), common=True, bounded=r"other_lengths"), execs=[("sdk_native", "text")],
    bounded=["text and file form of identifiers: 4000 identifiers (every byte value, random ones), by running the code",
             "refusal of byte strings: lengths of up to 66 bytes"],
    functions=["sdk/src/common/types/poseidon2hash.rs: from_u64s, to_u64s, inner, From<[u64; 4]>, From<[u8; 32]>, From<Vec<u8>>",
               "sdk/src/common/types/program_identifier.rs: inner, is_null_program, ensure_constraint_owner_similarity",
               "sdk/src/common/types/state_address.rs: inner, From", "bounded: ProgramIdentifier::{fmt, From<String>}, serialization"],
    trusted=STUBS_SDK + [HEX], assumptions=[])
PROPS["S02"] = dict(
    verus=["pad_native", "pad_native_pass", "pad_vm", "pad_vm_pass"],
    groups=sdk({"sdk_native": ["hashes"], "sdk_vm": ["hashes"]}, bounded="."),
    bounded=["in addition to the proof, over the compiled code: padded inputs of 0, 1, 6, 7, 8, 9, 15 and 16 bytes, unpadded ones of 0, 8, 16 and 24 bytes "
             "(all byte values); refusal: up to 24 bytes"],
    functions=["sdk/src/native/poseidon.rs: poseidon2_hash_with_pad, poseidon2_hash_no_pad (Verus, inputs of any length)", "sdk/src/mozakvm/poseidon.rs: the same"],
    explanation="both functions of both builds are proved for inputs of any length (Verus, extracted from the current source)",
    trusted=STUBS_SDK + ["Verus and vstd; to_vec and next_multiple_of assumed to do what core documents; mapping every byte by from_canonical_u8 gives one element per byte",
                         "extraction: assert!(c) becomes a call that stops the program unless c, buffer pointers become the buffers, "
                         "the digest's bytes stand for to_bytes().try_into().expect(..)"],
    assumptions=["the machine's hash call (R10) and the host's permutation are the same function", "inputs are 9 bytes shorter than the address space"])
PROPS["S03"] = dict(
    groups=sdk(BOTH("events"), common=True),
    functions=["sdk/src/common/types/event.rs: CanonicalEvent::from_event, canonical_hash", "sdk/src/common/types/poseidon2hash.rs: two_to_one"],
    trusted=STUBS_SDK, assumptions=["the hash functions are replaced by their contract (S02)"])
PROPS["S04"] = dict(
    level="other", groups=sdk({"sdk_native": ["order"]}, bounded="."), execs=[("sdk_native", "order")],
    bounded=["symbolic: up to 3 events; by running the code: 4000 lists of up to 8 events with many ties"],
    functions=["sdk/src/native/eventtape.rs: OrderedEvents::{new, push_temporal, get_canonical_ordering, get_canonical_order_temporal_hints, "
               "get_temporal_order_canonical_hints, canonical_hash}", "sdk/src/common/types/state_address.rs: Ord"],
    explanation="bounded: all lists of up to 3 events (symbolic), generated lists of up to 8 events (executed); not counted as proved",
    trusted=STUBS_SDK, assumptions=["the hash functions are replaced by their contract (S02)"])
PROPS["S05"] = dict(
    level="other", groups=sdk({"sdk_native": ["merkle"]}, common=True, bounded=".", thorough_only=("leaves_2", "leaves_3")),
    execs=[("sdk_native", "merkle")],
    bounded=["symbolic: no leaf, one leaf (thorough: two leaves); by running the code: every sequence of highest differing address bits of up to "
             "four leaves, 20000 generated sets of up to ten leaves"],
    functions=["sdk/src/common/merkle.rs: merkleize, merkleize_step"],
    explanation="bounded: every shape of tree of up to four leaves and generated sets of up to ten, executed and compared with the recursive definition; "
                "not counted as proved",
    trusted=STUBS_SDK, assumptions=["leaves are sorted by address (S04 for events; positions for cast lists)"])
VERUS_SDK = ["Verus and vstd; slice::contains assumed to compare every element",
             "in the Verus part reading an archive gives the archived value, a function of the archive's bytes (rkyv); identifiers and events compare by value",
             "extraction: assert!(c) becomes a call that stops the program unless c; the Strategy arguments of deserialization are left out"]
PROPS["S06"] = dict(
    verus=["emits_stop", "emits_pass"], groups=sdk({"sdk_vm": ["emits"]}, bounded="."),
    bounded=["in addition to the proof, over the real archives and compiled code: event tapes of up to 3 events (all contents, all hints, all states)"],
    functions=["sdk/src/mozakvm/eventtape.rs: EventTape::emit (Verus, tapes of any length)"],
    explanation="emit is proved for event tapes of any length in any state (Verus, extracted from the current source), over stand-ins for archived data; "
                "the bounded checks run it over the real archives",
    trusted=STUBS_SDK + VERUS_SDK + ["in the Verus part an event's canonical form is an uninterpreted function of the event (S03)"],
    assumptions=["the hash function is replaced by its contract (S02)", "in the Verus part: hints lie on the tape (a hint outside stops the program: bounded part)"])
PROPS["S07"] = dict(
    verus=["calls_stop", "calls_pass"], groups=sdk({"sdk_vm": ["calls"]}, bounded=".", extra=MEMCMP),
    bounded=["in addition to the proof, over the real archives and compiled code: call tapes of up to 2 calls in any state, cast lists of 2 programs; arguments of type u32, return values of type u16"],
    functions=["sdk/src/mozakvm/calltape.rs: CallTape::{send, receive, is_casted_actor, get_self_identity} (Verus, tapes of any length)"],
    explanation="send and receive are proved for call tapes and cast lists of any length, any argument and return types (Verus, extracted from the current "
                "source), over stand-ins for archived data; the bounded checks run them over the real archives",
    trusted=STUBS_SDK + VERUS_SDK, assumptions=["an argument type's equality is a function of its values"])
PROPS["S08"] = dict(
    level="other", groups=sdk({"sdk_native": ["calls"]}, bounded="."), execs=[("sdk_native", "calls")],
    bounded=["symbolic: one call, identities two deep; by running the code: 2000 generated call trees of depth up to 4"],
    functions=["sdk/src/native/calltape.rs: CallTape::send", "sdk/src/native/identity.rs: IdentityStack", "sdk/src/native/eventtape.rs: EventTape::emit",
               "sdk/src/native/inputtape.rs: RawTape::write", "sdk/src/common/system.rs: call_send, event_emit, SYSTEM_TAPE"],
    explanation="bounded: single calls (symbolic) and generated call trees (executed); not counted as proved",
    trusted=STUBS_SDK + [HEX], assumptions=[])
PROPS["S09"] = dict(
    verus=["tape"], groups=sdk({"sdk_vm": ["tape"]}, bounded=r"^read|^seek"),
    bounded=["in addition to the proof, over the compiled code: tapes of up to 4 bytes of which any prefix was fetched, any position, buffers of up to 4 bytes, all seek offsets"],
    functions=["sdk/src/mozakvm/inputtape.rs: RandomAccessEcallTape::{read, seek, len} (Verus, tapes of any length), with_size_hint"],
    explanation="read and seek are proved for tapes, buffers and histories of any length, as an invariant both keep (Verus, extracted from the current source)",
    trusted=STUBS_SDK + ["Verus and vstd; Result::map_or and copying between slices assumed to do what core documents",
                         "extraction: the environment call becomes a call with the same registers, whose contract is R08's; Seek, Error and ErrorKind are stand-ins"],
    assumptions=["the machine hands out the tape's bytes in order (R08)", "the size given when the tape was set up is the tape's (S11)"])
PROPS["S10"] = dict(
    groups=sdk({"sdk_vm": ["abi"]}),
    functions=["sdk/src/core/ecall.rs: every wrapper", "sdk/src/core/env.rs: write, finalize", "sdk/src/core/alloc.rs: alloc_aligned"],
    trusted=STUBS_SDK, assumptions=["buffers of up to 40 bytes and messages of up to 3 (the wrappers do not loop)", "two writes of output",
                                    "the heap stays below 2^64 (of the VM: 2^32); alignments are powers of two up to 4096"])
PROPS["S11"] = dict(
    level="other", groups=sdk({"sdk_vm": ["shutdown"]}, bounded=".", extra=MEMCMP), execs=[("sdk_vm", "run")],
    bounded=["symbolic: tapes of one call, up to one event, cast lists of up to two programs; by running the code: 1500 generated programs from start to end"],
    functions=["sdk/src/common/system.rs: ensure_clean_shutdown, SYSTEM_TAPE's initializer, populate_call_tape, populate_event_tape"],
    explanation="bounded: small tapes in any state (symbolic), generated programs (executed); not counted as proved",
    trusted=STUBS_SDK, assumptions=["hashes and Merkle roots are replaced by their contracts in the symbolic part (S03, S05)"])


# ---- circuits
def circuit_check(a, prop, build, t0, deadline):
    import check
    import circuits
    return circuits.check(a, prop, build, t0, deadline, check.log, check.ENV)


def contracts(*parts):
    """Obligations of the named generators."""
    def make(ext, call):
        import cpu_contracts
        import table_contracts
        for p in parts:
            mod, f = p.split(".")
            m = cpu_contracts if mod == "cpu" else table_contracts
            extra = [call("rom")] if f == "program" else [ext.codes] if f == "ecalls" else [call] if f == "honest" else []
            yield from getattr(m, f)(ext, *extra)
    return make


def circuit(*parts, functions, **kw):
    return dict(run=circuit_check, obligations=contracts(*parts), functions=functions, **kw)


CPU = ["circuits/src/cpu/{stark,add,bitwise,branches,div,ecall,jalr,memory,mul,signed_comparison,sub}.rs: constraints",
       "circuits/src/cpu/columns.rs: rangecheck_looking, lookup_for_*", "circuits/src/ops/{add,blt_taken}: constraints, lookups"]
PROPS["C01"] = circuit("cpu.arithmetic", functions=CPU, assumptions=[
    "operand registers hold words and, for instructions other than branches, loads and stores, register operand and immediate do not both occur (R01)"])
PROPS["C02"] = circuit("cpu.control", "table.skeleton", functions=CPU + ["circuits/src/cpu_skeleton: constraints, lookups"], assumptions=[
    "the next program counter of a jump is a word, because it is found in the program table"])
PROPS["C03"] = circuit("table.loads_stores", functions=CPU + ["circuits/src/memory_{halfword,fullword}: constraints, lookups"])
PROPS["C04"] = circuit("table.memory", functions=["circuits/src/memory/{stark,columns}.rs", "circuits/src/memoryinit, memory_zeroinit: lookups, constraints"])
PROPS["C05"] = circuit("table.registers", functions=["circuits/src/register: constraints, lookups", "circuits/src/cpu/columns.rs: register_looking",
                       "circuits/src/{storage_device,poseidon2_sponge,ops}: register lookups"])
PROPS["C06"] = circuit("table.tables", functions=["circuits/src/{rangecheck,rangecheck_u8,xor,bitshift}: constraints, lookups", "every lookup's filters"])
PROPS["C07"] = circuit("table.program", functions=["circuits/src/cpu/columns.rs: Instruction::from, lookup_for_program_rom", "circuits/src/program, program_multiplicities",
                       "circuits/src/ops/{add,blt_taken}/mod.rs: lookup_for_program_rom"], assumptions=[
    "a row's selected registers are 0..31 (they are found in the register tables, C05)"])
PROPS["C08"] = circuit("table.ecalls", functions=["circuits/src/cpu/ecall.rs: constraints", "circuits/src/storage_device: constraints, lookups", "circuits/src/cpu/columns.rs: ecall lookups"],
                       assumptions=["addresses of memory rows are words (C04)"])
PROPS["C09"] = circuit("table.hashing", functions=["circuits/src/poseidon2, poseidon2_sponge, poseidon2_output_bytes, tape_commitments: constraints, lookups"], trusted=[
    "the round constants of the permutation (a stand-in supplies them: that the permutation is Poseidon2 is not decided)"])
PROPS["C10"] = circuit("table.recursion", functions=["every eval_packed_generic and eval_ext_circuit of circuits/src, expr/src"])
PROPS["C11"] = circuit("table.honest", level="other", functions=["circuits/src/**/generation.rs", "circuits/src/generation.rs"],
                       explanation="bounded: seeded random programs, every operation on a grid of about 100 x 100 operands, and programs for aliased registers, loops, tapes, hashes, padding and the end of the address space, run by the real runner; tables built by the real generator, every real constraint evaluated on every row and every lookup compared as a multiset",
                       bounded=["honest traces of generated programs: a fixed number of seeds with programs of about 200 instructions; a fixed grid of about 250000 single operations and about 120 fixed programs"])
