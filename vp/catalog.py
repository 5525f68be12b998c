"""The property catalogue: writes properties.jsonl and MANIFEST.json.

Run by hand after editing (python3 vp/catalog.py); no check runs it."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="proof", claim=True, reason=None, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, claim=claim, reason=reason, extra=kw))


KANI = "function contracts on the woven real source, discharged by Kani/CBMC (full-domain symbolic inputs)"

prop("R01", "Every 32-bit word decodes to its RV32IM meaning",
     "For every 32-bit word and every address, the decoder yields an instruction whose effect on any machine state is the effect the "
     "RISC-V manual gives that word as RV32IM code at that address, with fences, CSR accesses and the other system instructions except ecall "
     "treated as no-ops. A word that is not an instruction of that set is reported as a decoding error carrying the word and the address, "
     "and no word makes the decoder panic.",
     ["inputs", "programs"], "all 2^32 words, all word-aligned addresses, all register contents",
     "The tests decode a few hand-picked encodings per opcode; immediates, register fields and illegal encodings are a 2^32 space.",
     ["runner/src/decode.rs", "runner/src/instruction.rs"],
     [("bit-field extraction and opcode match", "runner/src/decode.rs: decode_instruction")], KANI,
     "all words, all pcs, all register files; a word and its decoded instruction are compared through the machine-state effect of both, so the "
     "decoder may choose any encoding of the same effect")
prop("R02", "Integer register operations compute the RV32I result",
     "For every machine state, executing an add, subtract, logic, shift or set-less-than instruction writes exactly the value the RISC-V manual defines "
     "to the destination register (nothing if it is x0), advances the program counter by 4 modulo 2^32 and the clock by one, and leaves every other "
     "register, all memory, the input tapes and the halted flag as they were.",
     ["inputs", "programs"], "all register files, operands, immediates, program counters, memories",
     "Runner tests that execute instructions sample operands and run only with the full workspace; they never assert the frame (what must not change).",
     ["runner/src/vm.rs", "runner/src/state.rs"],
     [("ALU dispatch", "runner/src/vm.rs: execute_instruction"), ("operand fetch and write-back", "runner/src/state.rs: register_op")], KANI,
     "complete for each of the ten opcodes of this group: loop-free symbolic execution over the whole state")
prop("R03", "Multiply and divide follow RV32M, including zero and overflow",
     "For every machine state, executing a multiply, divide or remainder instruction writes the value of the manual's RV32M table to the destination "
     "register, including division by zero (quotient all ones, remainder the dividend) and signed overflow (quotient the dividend, remainder zero). "
     "It never panics, and changes nothing else but the program counter and the clock.",
     ["inputs", "programs"], "all pairs of 32-bit operands, all machine states",
     "2^64 operand pairs; the corner cases interact with signedness and with the zero register.",
     ["runner/src/vm.rs"], [("RV32M functions", "runner/src/vm.rs: mulh, mulhu, mulhsu, div, divu, rem, remu")], KANI,
     "modular: each arithmetic function proved against the table (CaDiCaL, z3 for division), the step proved against the functions' contracts")
prop("R04", "Branches and jumps go exactly where RV32I says",
     "For every machine state, a conditional branch is taken exactly when the comparison of its two registers (signed or unsigned as its opcode says) "
     "holds, continuing at its target and otherwise at the next instruction. A jump-and-link-register continues at (base + immediate) with the lowest "
     "bit cleared and links the address of the next instruction, also when base and destination are the same register; nothing else changes.",
     ["inputs", "programs"], "all register files, immediates, program counters",
     "Tests sample operand pairs; sign boundaries, wrap-around targets and register aliasing are not enumerated.",
     ["runner/src/vm.rs", "runner/src/state.rs"],
     [("branch_op", "runner/src/state.rs: branch_op"), ("jalr", "runner/src/vm.rs: jalr")], KANI,
     "complete for each branch opcode and JALR (JAL decodes to it)")
prop("R05", "Loads return the addressed bytes, extended as specified",
     "For every memory content and address, a load writes to its destination the addressed 1, 2 or 4 bytes in little-endian order, sign- or zero-extended "
     "as the opcode says, where absent bytes read as zero and addresses wrap around at 2^32. The load changes nothing else but the program counter and the "
     "clock, and the access reported in the execution trace is the access made.",
     ["inputs", "programs"], "all addresses including those that wrap, all memory contents, all register files",
     "Memory contents and addresses are unbounded; wrap-around and absent bytes are corner cases tests do not combine.",
     ["runner/src/vm.rs", "runner/src/state.rs"],
     [("memory_load", "runner/src/state.rs: memory_load, load_u8"), ("extension", "runner/src/vm.rs: lb, lbu, lh, lhu, lw")], KANI,
     "complete: memory is arbitrary at the (at most five) addresses the contract observes")
prop("R06", "Stores write exactly the addressed bytes and respect read-only data",
     "For every machine state, a store writes the low 1, 2 or 4 bytes of its source register, little-endian, to the addressed bytes (wrapping at 2^32), and "
     "no other byte of memory, no register and no tape changes. A store that touches a read-only byte never completes, and the set of read-only bytes "
     "never changes.",
     ["inputs", "programs"], "all addresses, values, memory contents and read-only sets",
     "The claim is about all the bytes a store does not touch and all ways a store can overlap read-only data.",
     ["runner/src/vm.rs", "runner/src/state.rs"],
     [("store", "runner/src/vm.rs: store"), ("read-only check", "runner/src/state.rs: store_u8")], KANI,
     "complete for SB, SH, SW; the byte-level write carries the general read-only set")

prop("R07", "The execution record describes each step exactly",
     "For every machine state and every instruction, the record of the step that the prover consumes agrees with the step: the executed instruction is the one "
     "decoded at the program counter, the recorded operands, result value, memory access and next program counter are those the step used and produced, and "
     "it is marked as halting only if the machine halts. Executing at an address without code, or one whose word does not decode, never yields a step.",
     ["inputs", "programs"], "all instructions, register files, memories and program counters",
     "Tests compare final states; the recorded auxiliary data is only seen by the prover, where a wrong record makes a valid execution unprovable.",
     ["runner/src/vm.rs", "runner/src/state.rs"],
     [("Aux", "runner/src/vm.rs: execute_instruction"), ("instruction fetch", "runner/src/state.rs: current_instruction")], KANI,
     "complete for every opcode but ecall (R08, R09)")
prop("R08", "Input tapes are read in order, without loss or invention",
     "A read of n bytes from an input tape delivers to the guest's buffer the next min(n, remaining) unread bytes of that tape, in order and at consecutive "
     "(wrapping) addresses, and advances that tape's position by exactly that many; commitment and self-identity reads deliver the first bytes of theirs. No other "
     "memory byte, register or tape changes, and the recorded bytes are the delivered ones.",
     ["inputs", "histories"], "all tape contents, positions, request sizes and buffer addresses",
     "Chunking of reads, reads past the end and buffers at the address wrap combine into a space the tests do not sample.",
     ["runner/src/state.rs", "runner/src/ecall.rs"],
     [("read_bytes", "runner/src/state.rs: read_bytes"), ("dispatch and delivery", "runner/src/ecall.rs: ecall_read")],
     "function contracts on the extracted read_bytes and ecall_read, discharged by Verus (any size); Kani contracts on the ecalls in addition (bounded tape size)",
     "reading and delivery proved for all sizes; the dispatch by ecall number bounded to 3 bytes per read")
prop("R09", "Halt, panic and unknown ecalls control execution as specified",
     "A halt ecall stops the machine with its program counter in place; a panic ecall never lets execution continue; a trace-log ecall and an unknown ecall "
     "number are no-ops that continue at the next instruction. None of those that complete changes a register, memory or a tape, and only halt is recorded as halting.",
     ["inputs", "programs"], "all machine states, all 2^32 ecall numbers outside the input, hash and commitment calls",
     "The claim is about everything an ecall must not do, in every machine state.",
     ["runner/src/ecall.rs"], [("dispatch", "runner/src/ecall.rs: ecall")], KANI,
     "halt and unknown numbers complete; panic and trace log bounded to messages of 2 bytes")
prop("R10", "The hash ecall's sponge absorbs every block and returns the squeezed digest",
     "For every input of a whole number of blocks (at least one), the hash starts from the zero state, overwrites the first eight elements with each block in order, permutes once per block "
     "carrying the capacity, and returns the first four elements of the last output. The permutation inputs and outputs are recorded in order, and exactly the last is marked as "
     "producing the digest. The hash ecall hashes as many bytes as asked from consecutive (wrapping) addresses, one element per byte, writes the 32-byte digest to consecutive addresses "
     "where asked, records both ranges, and changes no other byte of memory, register or tape.",
     ["inputs"], "all block contents and all permutations, any number of blocks, any addresses",
     "The recorded preimages are only seen by the prover; a test comparing one digest does not constrain them.",
     ["runner/src/poseidon2.rs"], [("sponge", "runner/src/poseidon2.rs: hash_n_to_m_no_pad"), ("hash ecall", "runner/src/poseidon2.rs: ecall_poseidon2")],
     "function contracts on the extracted real functions, discharged by Verus (any size); bounded Kani contracts and executed hash calls in addition",
     "the sponge proved for any number of blocks over an arbitrary permutation")

prop("R11", "A run is the chain of single steps from its start to the halt",
     "Running a program executes one step after another, each from exactly the state the step before it left, until the machine halts. The record has one row per step with the state before it, its "
     "instruction and its details, in order, none of them halted, and the halted state is the last. A step that fails makes the whole run fail, and a machine that starts halted takes no step.",
     ["histories", "programs"], "runs of any length",
     "The recorded trace is what is proved later; tests look at the last state of a few programs, not at every row of every run.",
     ["runner/src/vm.rs", "runner/src/state.rs"], [("run loop", "runner/src/vm.rs: step")],
     "function contract with loop invariant on the extracted real function, discharged by Verus; bounded Kani and executed runs in addition",
     "unbounded: a loop invariant over an arbitrary step function; diagnostics dropped from the extraction are covered by the bounded checks only")
prop("R12", "Loading an ELF file gives exactly its loadable segments",
     "Only little-endian 32-bit RISC-V executables with a word-aligned entry point and at most 256 segments are accepted; everything else is refused with an error. "
     "The loaded program has the file's entry point and, at every address, exactly the bytes of the readable loadable segments, padded with zeros to their size in memory, writable bytes apart from read-only ones; "
     "its code is what the executable segments' words decode to.",
     ["inputs"], "all headers; generated files with up to four segments",
     "The tests load a few files made by one compiler: unusual flags, other segment types, padding and unaligned sizes never occur.",
     ["runner/src/elf.rs", "runner/src/code.rs"],
     [("validation", "runner/src/elf.rs: parse_and_validate_elf"), ("contents", "runner/src/elf.rs: internal_load_elf, extract_elf_data"), ("code", "runner/src/code.rs: Code::from")],
     KANI + ", plus the same real code executed against the specification on generated inputs", "acceptance proved for all headers; contents bounded (4000 generated files)", level="other")
prop("R13", "A machine starts with exactly the program's image and tapes",
     "A machine made for a program starts at its entry point, not halted, with zero registers, memory holding exactly the program's read-only and read-write bytes, of which exactly the first kind is read-only, "
     "and every input tape holding exactly the bytes given, at its start.",
     ["inputs"], "all addresses and contents of small images and tapes; generated programs",
     "Initial memory is assembled from overlapping sources; the tests never look at bytes the program does not touch.",
     ["runner/src/state.rs", "runner/src/elf.rs", "runner/src/code.rs"],
     [("initial state", "runner/src/state.rs: State::new, StateMemory::new"), ("program from parts", "runner/src/elf.rs: Program::create")],
     KANI + ", plus the same real code executed against the specification on generated inputs", "bounded in the size of memory and tapes, complete in addresses and contents", level="other")


Z3 = "per-row contracts on the real constraint code (extracted by running it symbolically), discharged by z3"

prop("C01", "Accepted arithmetic rows compute the RV32IM result",
     "In every row of an instruction table that the proof system accepts, the value written to the destination register is the one the RISC-V manual defines for the row's "
     "instruction and operand values: addition, subtraction, logic, shifts, comparison, multiplication, division and remainder, in all signedness variants. No other value "
     "satisfies the constraints, whatever the prover chooses for the remaining columns.",
     ["inputs"], "all assignments of field elements to the columns of a row",
     "Tests prove honest executions and can show only that correct rows are accepted; that no wrong row is accepted is a statement about every assignment of 64-bit field elements.",
     ["circuits/src/ops/add/stark.rs", "circuits/src/cpu/sub.rs", "circuits/src/cpu/mul.rs", "circuits/src/cpu/div.rs", "circuits/src/cpu/bitwise.rs",
      "circuits/src/cpu/signed_comparison.rs"],
     [("instruction constraints", "circuits/src/cpu/stark.rs: generate_constraints"), ("range checks", "circuits/src/cpu/columns.rs: rangecheck_looking")], Z3,
     "all columns of a row are arbitrary field elements; products of bounded columns are abstracted soundly")
prop("C02", "Accepted executions follow the control flow of the program",
     "Every accepted execution starts at the program's entry point at clock 2, and each step is exactly one row of one instruction table at that clock whose next program counter is "
     "the next instruction, the branch target exactly when its comparison holds, or the jump's destination. It goes on until the halt call and stops there.",
     ["inputs", "schedules"], "all assignments of field elements to the rows and row pairs of the tables",
     "Soundness ranges over every malicious trace; honest-execution tests never present one.",
     ["circuits/src/cpu_skeleton/stark.rs", "circuits/src/cpu/branches.rs", "circuits/src/cpu/jalr.rs", "circuits/src/cpu/stark.rs", "circuits/src/ops/blt_taken/stark.rs", "circuits/src/cpu/ecall.rs"],
     [("clock and program counter", "circuits/src/cpu_skeleton/stark.rs: generate_constraints"), ("lookup of every step", "circuits/src/cpu/columns.rs: lookup_for_skeleton")], Z3,
     "per row, and per pair of rows for the skeleton; the induction over rows is by hand")
prop("C03", "Accepted loads and stores move the right bytes",
     "In every accepted row, a load or store accesses the address (register + immediate) modulo 2^32, once per byte and in little-endian order, with addresses that wrap around at 2^32. "
     "A load's destination is the accessed value, sign- or zero-extended as the instruction says, and a store stores exactly the low bytes of its register.",
     ["inputs"], "all assignments of field elements to the columns of a row",
     "Soundness ranges over every malicious row; honest-execution tests never present one.",
     ["circuits/src/cpu/memory.rs", "circuits/src/memory_halfword/stark.rs", "circuits/src/memory_fullword/stark.rs", "circuits/src/cpu/columns.rs"],
     [("sign extension and masking", "circuits/src/cpu/memory.rs: signed_constraints"), ("wide accesses", "circuits/src/memory_fullword/columns.rs: lookup_for_memory_limb")], Z3,
     "per row, with the contract of the memory table (C04) for the bytes")
prop("C04", "Accepted memory is consistent: a load sees the last store",
     "In every accepted memory table, each address starts from its byte of the program image, or zero, and is initialized once; its accesses appear in time order, loads before stores at the "
     "same clock; a load returns the value of the entry before it; stores go to writable addresses only; every value is a byte. Only the tables that are meant to access memory do.",
     ["histories"], "all tables, all rows and adjacent pairs of rows",
     "Memory consistency is a property of every history a malicious prover may write, not of honest ones.",
     ["circuits/src/memory/stark.rs", "circuits/src/memory/columns.rs", "circuits/src/memoryinit/columns.rs", "circuits/src/memory_zeroinit/columns.rs"],
     [("ordering and values", "circuits/src/memory/stark.rs: generate_constraints"), ("clock and address differences", "circuits/src/memory/columns.rs: rangecheck_looking")], Z3,
     "an inductive invariant over adjacent rows, including the pair of the last and the first row")
prop("C05", "Accepted register files are consistent",
     "In every accepted register table, registers 1 to 31 are initialized once each; reads and writes appear in time order, reads before the write of the same instruction; a read returns the value of the entry before it, "
     "and register 0 always reads as zero. Each instruction row makes exactly its own two reads and one write.",
     ["histories"], "all tables, all rows and adjacent pairs of rows",
     "Register consistency is a property of every history a malicious prover may write, not of honest ones.",
     ["circuits/src/register/general/stark.rs", "circuits/src/register/general/columns.rs", "circuits/src/register/init/columns.rs", "circuits/src/cpu/columns.rs"],
     [("ordering and values", "circuits/src/register/general/stark.rs: generate_constraints"), ("reads and writes of an instruction", "circuits/src/cpu/columns.rs: register_looking")], Z3,
     "an inductive invariant over adjacent rows; known finding: the initial values are the prover's choice")
prop("C06", "Range checks, xor and shift tables contain nothing false",
     "The byte table holds exactly 0 to 255, every value accepted by the word range check lies in [0, 2^32), every row of the xor table is a true xor of 32-bit words, and every row of the shift table is a pair (k, 2^k) "
     "with k below 32. No table looks another one up with a multiplicity other than 0 or 1.",
     ["inputs"], "all assignments of field elements to the rows and row pairs of these tables",
     "A single false entry breaks soundness of every instruction that uses the table, and no honest trace contains one.",
     ["circuits/src/rangecheck/stark.rs", "circuits/src/rangecheck_u8/stark.rs", "circuits/src/xor/stark.rs", "circuits/src/bitshift/stark.rs", "circuits/src/rangecheck/columns.rs"],
     [("limbs", "circuits/src/rangecheck/columns.rs: lookup"), ("bits", "circuits/src/xor/stark.rs: generate_constraints")], Z3,
     "per row and row pair; bit-vector lemmas link the xor table to the row conditions")
prop("C07", "Accepted instructions are the program's",
     "Every accepted instruction row carries an instruction that the public program has at that address: the encoding looked up determines the opcode, the signedness, the three registers and the immediate uniquely, "
     "for every instruction and every choice of registers. The public tables hold exactly the program's instructions and initial bytes.",
     ["inputs", "programs"], "all opcodes, all registers, all immediates, all columns of a row",
     "Two instructions sharing an encoding is invisible to honest executions.",
     ["circuits/src/program/columns.rs", "circuits/src/cpu/columns.rs", "circuits/src/ops/add/mod.rs", "circuits/src/ops/blt_taken/mod.rs", "circuits/src/program_multiplicities/columns.rs"],
     [("encoding", "circuits/src/program/columns.rs: From<Instruction<F>> for ProgramRom<F>"), ("looked-up tuple", "circuits/src/cpu/columns.rs: lookup_for_program_rom")], Z3,
     "uniqueness proved over all fields; the encoder is enumerated over all opcodes and registers; the public tables are compared on samples (bounded)")
prop("C08", "Accepted environment calls transfer bytes only as the call says",
     "In every accepted execution, each environment call is the one its code in register a0 names, each tape transfer belongs to exactly one such call at its clock and starts at the call's buffer address, "
     "its bytes go to consecutive addresses (wrapping at 2^32), and it moves exactly the call's number of bytes and nothing else.",
     ["histories"], "all rows and adjacent row pairs of the tape tables, all columns",
     "A forged transfer row stores arbitrary bytes; honest executions contain none.",
     ["circuits/src/storage_device/stark.rs", "circuits/src/storage_device/columns.rs", "circuits/src/cpu/ecall.rs"],
     [("transfer rows", "circuits/src/storage_device/stark.rs: generate_constraints"), ("call lookup", "circuits/src/storage_device/columns.rs: lookup_for_cpu")], Z3,
     "an inductive invariant over adjacent rows; known finding: the number of bytes is not tied to register a2")
prop("C09", "Accepted hash calls are sponges over memory",
     "In every accepted hash call, blocks of eight bytes are read from consecutive addresses, the capacity starts at zero and is carried from block to block, every block is permuted, no block is skipped or repeated, "
     "and the digest stored is made of the first four elements after the last block. The permutation's output is determined by its input, and bytes read from commitment tapes are looked up in the committed ones.",
     ["histories"], "all rows and adjacent row pairs of the hashing tables, all columns",
     "A single unconstrained intermediate value lets a prover claim any digest; honest executions never show it.",
     ["circuits/src/poseidon2/stark.rs", "circuits/src/poseidon2_sponge/stark.rs", "circuits/src/poseidon2_output_bytes/stark.rs", "circuits/src/tape_commitments/stark.rs"],
     [("sponge", "circuits/src/poseidon2_sponge/stark.rs: generate_constraints"), ("permutation", "circuits/src/poseidon2/stark.rs: generate_constraints")], Z3,
     "the round constants are stand-ins: the permutation is shown deterministic, not shown to be Poseidon2; known findings: non-canonical digest bytes, commitments as multisets")
prop("C10", "Native and recursive verification check the same constraints",
     "For every table, the constraints evaluated natively and those built into the recursive verification circuit are the same polynomials, in the same order and enforced on the same rows, and none exceeds the degree its table declares.",
     ["inputs"], "all tables, all constraints, all column values",
     "The two evaluators are tested on a few random points; a constraint dropped in one of them opens the proof to forgery.",
     ["expr/src/lib.rs", "circuits/src/expr.rs"],
     [("two evaluators of one expression", "circuits/src/expr.rs: build_packed, build_ext")],
     "both real evaluators run symbolically; the polynomials are compared (structurally, else at 20 random points of the 64-bit field)",
     "equality of polynomials by structure or by Schwartz-Zippel with error below 2^-1000")
prop("C11", "Honest executions satisfy every constraint and lookup",
     "For programs that use every instruction and environment call, the tables the generator builds from a real execution satisfy every constraint on every row, every lookup between tables is balanced, and every table has a power-of-two number of rows.",
     ["programs", "operands"], "three generated programs of about 200 instructions, 250000 single operations on a fixed grid of operands, 120 fixed programs",
     "The repository's own end-to-end tests prove fragments, and constraints and generation drift apart silently for inputs they do not contain.",
     ["circuits/src/generation.rs", "circuits/src/cpu/generation.rs", "circuits/src/memory/generation.rs", "circuits/src/register/generation.rs"],
     [("trace generation", "circuits/src/generation.rs: generate_traces")],
     "bounded: real runner, real trace generation, real constraints evaluated on every row", "bounded to generated programs and a fixed grid; not counted as proved", level="other")

BOUNDED = "function contracts on the woven real source, discharged by Kani/CBMC (all contents, stated bound on sizes)"
VERUS = "function contracts on the extracted real functions, discharged by Verus (any size); bounded Kani contracts over the compiled code in addition"
EXEC = BOUNDED + ", plus the same real code executed against the specification on generated inputs"

prop("S01", "Digests, identifiers and addresses keep their value in every form",
     "Converting a digest, program identifier or state address between its forms (four 64-bit little-endian words, 32 or 8 bytes, 0x-prefixed text, "
     "serialized file) and back gives the same value, and different values have different forms. A byte string of another length is refused. "
     "Two owners count as the same exactly when their identifiers are equal, and the null program is exactly the identifier of zeros.",
     ["inputs"], "all digests, identifiers and addresses; byte strings of up to 66 bytes",
     "A conversion that confuses byte orders or drops a byte is invisible for the symmetric or small values tests use.",
     ["sdk/src/common/types/poseidon2hash.rs", "sdk/src/common/types/program_identifier.rs", "sdk/src/common/types/state_address.rs"],
     [("word conversions", "sdk/src/common/types/poseidon2hash.rs: from_u64s, to_u64s"), ("text form", "sdk/src/common/types/program_identifier.rs: Debug, From<String>")],
     KANI, "conversions proved for all values in both builds of the library (host and VM); the text and serialized forms are bounded (4000 identifiers, executed)")
prop("S02", "The hash of bytes is the padded sponge, on the host and in the VM",
     "Hashing bytes with padding appends a single one byte and zeros up to the next multiple of eight, and hashes the result with every byte as one field element; "
     "hashing without padding does the same without appending and refuses lengths that are not a multiple of eight. "
     "The host and the VM hand the same elements to the hash for the same bytes, so both sides compute the same commitments.",
     ["inputs"], "inputs of any length",
     "Hash outputs look random: a test can only compare a few recorded digests and never both builds on one input.",
     ["sdk/src/native/poseidon.rs", "sdk/src/mozakvm/poseidon.rs"],
     [("padding and packing", "sdk/src/native/poseidon.rs: poseidon2_hash_with_pad, poseidon2_hash_no_pad"), ("hash call", "sdk/src/mozakvm/poseidon.rs")],
     VERUS, "proved for inputs of any length, in both builds; the permutation itself is R10's")
prop("S03", "The canonical form of an event commits to all of it",
     "The canonical form of an event has its type, its object's address and the hash of its object's data. "
     "Its hash is the hash of type, address and value laid out at fixed, disjoint places, so two events with different type, address or value have different preimages; "
     "a pair of digests is hashed as the first followed by the second.",
     ["inputs"], "all events, all digests",
     "A field left out of a preimage, or two fields that overlap, only shows when two inputs differ in exactly that field.",
     ["sdk/src/common/types/event.rs", "sdk/src/common/types/poseidon2hash.rs"],
     [("canonical form and hash", "sdk/src/common/types/event.rs: CanonicalEvent::from_event, canonical_hash"), ("pair hash", "sdk/src/common/types/poseidon2hash.rs: two_to_one")],
     KANI, "proved for all field values, data of up to two bytes; hash functions replaced by their contract (S02)")
prop("S04", "Events are ordered canonically with hints that undo the sorting",
     "Listing emitted events canonically sorts them by address (as the number that places it in the tree), then type, then value, loses and invents none, and gives hints that form a permutation "
     "leading from each emission to its canonical place. The commitment to the events is the Merkle root over address and hash of the sorted events.",
     ["inputs", "histories"], "all lists of up to 3 events; generated lists of up to 8 with many ties",
     "The result depends on the relative order of all events; ties, equal addresses and permutations explode combinatorially.",
     ["sdk/src/native/eventtape.rs", "sdk/src/common/types/state_address.rs"],
     [("sorting and hints", "sdk/src/native/eventtape.rs: get_canonical_order_temporal_hints"), ("address order", "sdk/src/common/types/state_address.rs: Ord")],
     EXEC, "bounded: 3 events symbolically, 8 by execution", level="other")
prop("S05", "The Merkle root is the address trie's root",
     "For every list of leaves sorted by address, the root is the one of the binary trie over their addresses: no leaves give the zero digest, one leaf its own hash, and otherwise the leaves split at the highest bit in which addresses differ, "
     "the root being the hash of the two halves' roots, left first; equal addresses stay adjacent. The result is defined for every set of addresses.",
     ["inputs"], "every shape of tree of up to four leaves, generated sets of up to ten leaves",
     "The shape of the tree depends on all pairwise highest differing bits; the tests hash a handful of small trees.",
     ["sdk/src/common/merkle.rs"], [("bottom-up merging", "sdk/src/common/merkle.rs: merkleize, merkleize_step")],
     EXEC, "bounded: up to ten leaves by execution against the recursive definition, at most one (thorough: two) symbolically", level="other")
prop("S06", "The VM accepts exactly the next own event with its hint",
     "While a proven program runs, emitting an event succeeds exactly if the event tape has a next entry, that entry's hint leads to an event of the tape that was not emitted before, and that event's canonical form is the emitted one's. "
     "The event is then marked as emitted and the tape moves on by one; every other emission stops the program, so that each listed event is emitted once, in the order the hints give.",
     ["inputs", "histories"], "event tapes of any length in any state, all events",
     "The tape comes from an untrusted prover: the claim is about every forged tape, not about the ones a host run writes.",
     ["sdk/src/mozakvm/eventtape.rs"], [("event check", "sdk/src/mozakvm/eventtape.rs: EventTape::emit")],
     VERUS, "emit proved for tapes of any length over stand-ins for archived data; bounded to three events over the real archives")
prop("S07", "The VM accepts exactly the calls on its tape, to known programs",
     "While a proven program runs, sending a call succeeds exactly if the next entry of the call tape is a call by this program to the given callee with the given argument, the callee being in the cast list, and returns the entry's return value; every other call stops the program. "
     "Receiving hands out caller, argument and return value of exactly the next call addressed to this program, skipping only calls addressed to others, and says so when there is none left. "
     "A received call from this program itself or from a program outside the cast list stops the program.",
     ["inputs", "histories"], "call tapes and cast lists of any length in any state, all programs and arguments",
     "The tape comes from an untrusted prover: the claim is about every forged tape.",
     ["sdk/src/mozakvm/calltape.rs"], [("call check", "sdk/src/mozakvm/calltape.rs: CallTape::send"), ("delivery", "sdk/src/mozakvm/calltape.rs: CallTape::receive")],
     VERUS, "send and receive proved for tapes of any length and any argument type over stand-ins for archived data; bounded to two calls over the real archives")
prop("S08", "Native execution records calls and events as they happen",
     "Running programs natively, every call appears once on the call tape, in the order of being sent, with its caller, callee, argument and the value it returned; every event is recorded for the program that emitted it. "
     "The identity of the running program is the callee's during a call and the caller's before and after it, at any depth, and the raw tapes are exactly what was written for each program.",
     ["histories"], "single calls symbolically; generated call trees of depth up to 4 by execution",
     "Nesting and interleaving of calls and events are unbounded; the existing tests use one or two flat calls.",
     ["sdk/src/native/calltape.rs", "sdk/src/native/identity.rs", "sdk/src/native/eventtape.rs", "sdk/src/native/inputtape.rs"],
     [("call recording", "sdk/src/native/calltape.rs: CallTape::send"), ("identity stack", "sdk/src/native/identity.rs")],
     EXEC, "bounded: one call symbolically, 2000 generated call trees by execution", level="other")
prop("S09", "Input tapes read like files",
     "Reading an input tape returns the bytes at the current position, as many as fit and remain, and moves the position past them; seeking moves to the position asked for, at most the end, and refuses positions before the start. "
     "This holds for every interleaving of reads and seeks although the machine hands out every byte only once and in order, and reading the end of the tape returns nothing instead of failing.",
     ["histories"], "tapes, buffers and histories of any length",
     "Which bytes were fetched before depends on the whole history of reads and seeks; boundaries at the end and skipped gaps need unusual sequences.",
     ["sdk/src/mozakvm/inputtape.rs"], [("cached cursor", "sdk/src/mozakvm/inputtape.rs: RandomAccessEcallTape")],
     VERUS, "an invariant that read and seek keep, for any sizes; the environment call is replaced by its contract (R08)")
prop("S10", "System calls pass the registers the machine expects",
     "Every system call of the library executes one environment call with the number the machine assigns to it, the buffer's address and its length in the argument registers, and nothing else. "
     "Ending a program halts it with the first byte of all output written (zero if there is none) and nothing runs afterwards; the allocator gives aligned, non-overlapping memory above the heap's start.",
     ["inputs"], "all buffers, alignments and sizes",
     "The tests run on the host, where the system calls are compiled out.",
     ["sdk/src/core/ecall.rs", "sdk/src/core/env.rs", "sdk/src/core/alloc.rs"],
     [("environment calls", "sdk/src/core/ecall.rs"), ("exit", "sdk/src/core/env.rs: finalize"), ("allocator", "sdk/src/core/alloc.rs: alloc_aligned")],
     KANI, "the inline assembly's operands are kept and handed to the contract, the instruction itself is replaced; buffers of up to 40 bytes (no loops)")
prop("S11", "A program ends well only if its tapes were used up and commitments match",
     "A proven program starts with exactly the identity, calls, events and input sizes the machine hands it, and its cast list is the set of all callees. "
     "It ends successfully exactly if all its calls and events were consumed and the commitments handed in equal those computed from its own cast list and events; otherwise it stops.",
     ["inputs", "histories"], "all small tapes in all states; generated programs from start to end",
     "The claim is about every forged tape or commitment, at the very end of every history.",
     ["sdk/src/common/system.rs"], [("closing checks", "sdk/src/common/system.rs: ensure_clean_shutdown"), ("start-up", "sdk/src/common/system.rs: SYSTEM_TAPE")],
     EXEC, "bounded: one call and one event symbolically, 1500 generated programs by execution", level="other")


def PY(p):
    return "python3-vt" if p["id"][0] == "C" else "python3"


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], **p["extra"]))
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 vp/setup.py",
             checks=[dict(property=p["id"], quick_cmd=f"{PY(p)} vp/check.py {p['id']} --tier quick",
                          thorough_cmd=f"{PY(p)} vp/check.py {p['id']} --tier thorough",
                          technique=p["technique"], level=p["level"], level_note=p["note"],
                          evidence_file=f"evidence/{p['id']}.json") for p in P if p["claim"]],
             not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in P if not p["claim"]])
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
