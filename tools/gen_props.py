#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays consistent)."""
import json, os
S="m68000/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[ (f if f.startswith('m68000-ffi') or f.startswith('include') else S+f) for f in files],
        state=state or [],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Every 16-bit opcode decodes to the instruction the 68000 defines for it",
 "For each of the 65536 first instruction words, the decoder names exactly the instruction that the M68000 programmer's reference manual assigns to that word, and every word that is not a 68000 instruction (reserved size, addressing mode not allowed for that instruction, 68010+ only encodings) is reported as unknown. Executing an unknown word raises line-A (10) for 0xAxxx, line-F (11) for 0xFxxx, and illegal instruction (4) otherwise, without changing any register or memory.",
 ["inputs"],"all 65536 opcode words, on both CPU types, in user and supervisor mode",
 "tests/assembler.rs decodes one or two hand-picked words per instruction; the table has 65536 entries and most of them are never looked at.",
 ["decoder.rs","isa.rs","bin/decoder.rs","interpreter.rs"],[("DECODER table","decoder.rs"),("Isa::from(u16)","isa.rs"),("execute_unknown_instruction","interpreter.rs")],
 ["m68000::isa::Isa::from","M68000::interpreter_exception","Instruction::disassemble"])

p("C02","Decoding yields the encoded operands and consumes exactly the extension words",
 "Decoding an instruction from memory returns the operand fields (registers, size, direction, immediate, displacement, condition, register list, addressing modes with their extension data and PC base) that the instruction word and its extension words encode. It advances by exactly the length of the instruction, reads no other word, and both the executing and the disassembling front ends agree on that length.",
 ["inputs"],"all valid opcode words x arbitrary extension words x arbitrary even addresses (including wrap-around at the top of the address space)",
 "The existing tests check about 90 fixed encodings; the operand fields of the other ~48000 valid opcodes and arbitrary extension words are never decoded.",
 ["instruction.rs","addressing_modes.rs"],[("Instruction::from_memory / from_opcode","instruction.rs"),("AddressingMode::from_memory","addressing_modes.rs")],
 ["Instruction{opcode,pc,operands}","MemoryIter::next_addr","regs.pc after one step"])

p("C03","Integer add, subtract, negate and compare give exact results and condition codes",
 "ADD, ADDA, ADDI, ADDQ, ADDX, SUB, SUBA, SUBI, SUBQ, SUBX, NEG, NEGX, CMP, CMPA, CMPI and CMPM compute the two's-complement result at their operand size, write it only to the destination (the rest of a register untouched; address registers always changed as 32 bits) and set X, N, Z, V and C exactly as the 68000 manual defines (X untouched by compares, Z only ever cleared by the extended forms, no flag changed by address-register destinations). Everything else in the machine state is unchanged apart from the program counter and the addressing-mode side effects.",
 ["inputs"],"all opcodes of these instructions x all operand values, initial flags, addressing modes and registers",
 "The arithmetic helpers are tested on a dozen literal pairs; no test executes a single instruction.",
 ["interpreter.rs","utils.rs","interpreter_fast.rs","interpreter_disassembler.rs"],[("add / sub / CarryingOps","interpreter.rs, utils.rs"),("execute_add*, execute_sub*, execute_neg*, execute_cmp*","interpreter.rs")],
 ["regs.d, regs.a, regs.sr after a step","memory bytes"])

p("C04","Multiply, divide, CHK and EXT give exact results, flags and traps",
 "MULS/MULU produce the exact 32-bit product; DIVS/DIVU produce the quotient and remainder (remainder with the dividend's sign) whenever the quotient fits and otherwise set V, clear C and leave the destination unchanged; division by zero raises vector 5 and leaves the register unchanged. CHK raises vector 6 exactly when the low word is negative or above the signed bound, with N telling which, and EXT sign-extends at the stated size with N and Z from the extended result.",
 ["inputs"],"all opcodes of these instructions x all dividend/divisor/multiplicand/bound values, including the extremes of each range",
 "No existing test executes these instructions; the interesting values (quotient exactly -32768, 0x80000000 / -1, bound equal to value) are isolated points of a 2^48 input space.",
 ["interpreter.rs"],[("execute_divs, execute_divu, execute_muls, execute_mulu, execute_chk, execute_ext","interpreter.rs")],
 ["regs.d, regs.sr, returned exception vector"])

p("C05","BCD arithmetic is exact decimal arithmetic",
 "For operands that are valid packed BCD, ABCD, SBCD and NBCD (register and memory forms) yield the decimal sum or difference modulo 100 including the extend bit, set C and X to the decimal carry or borrow, and clear Z when the result is non-zero while leaving Z unchanged otherwise, so multi-byte chains compute multi-digit decimal arithmetic.",
 ["inputs","programs"],"all pairs of valid packed BCD bytes x X and Z flags x register/memory forms; chains of several bytes",
 "No existing test executes a BCD instruction.",
 ["interpreter.rs"],[("execute_abcd, sbcd, execute_nbcd","interpreter.rs")],["destination byte, regs.sr"])

p("C06","Logical, bit, test and set instructions give exact results and flags",
 "AND, OR, EOR, NOT and their immediate forms, TST, CLR, TAS, SWAP, Scc, BTST, BCHG, BCLR and BSET (bit number modulo 32 on registers and modulo 8 on memory, Z from the bit before modification), MOVEQ, and ANDI/ORI/EORI to CCR and SR set the destination and the condition codes exactly as the manual defines and change nothing else. Immediate operations on CCR change only the condition codes.",
 ["inputs"],"all opcodes of these instructions x all operand values, bit numbers, initial flags and addressing modes",
 "No existing test executes these instructions.",
 ["interpreter.rs","status_register.rs"],[("execute_and/or/eor/not/tst/clr/tas/swap/scc/b*","interpreter.rs"),("StatusRegister bit operators","status_register.rs")],
 ["regs.d, regs.sr, memory bytes"])

p("C07","Shifts and rotates give exact results and flags for every count",
 "ASL, ASR, LSL, LSR, ROL, ROR, ROXL and ROXR, in register form with immediate counts 1-8 and register counts 0-63 (modulo 64) at every size and in memory form, produce the shifted or rotated value in the destination size only, and set X, N, Z, V and C exactly as the manual defines, including count zero, counts larger than the operand, and ASL's overflow flag reporting any sign change during the shift.",
 ["inputs"],"all shift/rotate opcodes x all counts 0-63 (any count register value) x all operand values x initial X",
 "No existing test executes a shift; the count/size/flag combinations cannot be enumerated by hand.",
 ["interpreter.rs"],[("execute_asm/asr/lsm/lsr/rom/ror/roxm/roxr","interpreter.rs")],["regs.d, regs.sr, memory word"])

p("C08","Data movement instructions move exactly the architected data",
 "MOVE, MOVEA, MOVEM (every register list, both directions, both sizes, the predecrement and postincrement forms), MOVEP, LEA, PEA, EXG, LINK, UNLK, MOVE from SR, MOVE to SR/CCR and MOVE USP transfer exactly the data the manual defines: right bytes, right order, right sign extension, right final values of the address registers involved. Flags change only where the manual says so, and no other register or memory byte changes.",
 ["inputs"],"all opcodes of these instructions x all register values, register lists, displacements and memory contents",
 "No existing test executes these instructions.",
 ["interpreter.rs","memory_access.rs"],[("execute_move*, execute_lea, execute_pea, execute_exg, execute_link, execute_unlk","interpreter.rs"),("push/pop","memory_access.rs")],
 ["regs, memory bytes"])

p("C09","Effective addresses are computed as architected, with their side effects",
 "For every addressing mode, register and extension word, the operand is taken from the address the manual defines: 32-bit wrap-around sums, sign-extended 16-bit and 8-bit displacements, index register width and sign extension, PC-relative modes based on the address of their own extension word, sign-extended absolute short, the user or supervisor stack pointer as A7. Postincrement and predecrement change the register exactly once by the operand size (by 2 for byte operands on A7), and read-modify-write instructions compute their address only once.",
 ["inputs"],"every (addressing mode, register, extension word) x register values x S bit x operand size",
 "No existing test computes an effective address at run time.",
 ["addressing_modes.rs","memory_access.rs","lib.rs"],[("get_effective_address, ariwpo, ariwpr, get_index_register","addressing_modes.rs"),("Registers::a / a_mut / sp","lib.rs")],
 ["address presented to MemoryAccess","regs.a, regs.usp, regs.ssp"])

p("C10","Control flow goes where the architecture says",
 "Bcc, BRA, BSR, DBcc, Scc conditions, JMP, JSR, RTS, RTR, TRAP, TRAPV and CHK/zero-divide traps take or fall through exactly according to the condition codes and counter, land on the architected target, and push/pop exactly the architected return state (a subroutine call followed by its return restores PC and stack pointer). DBcc decrements only the low word and stops at -1; all 16 conditions follow their Boolean definition.",
 ["inputs","programs"],"all branch/jump/return opcodes x all displacements, targets, conditions, flag combinations, counters and stack contents",
 "No existing test executes a branch, call or return.",
 ["interpreter.rs","status_register.rs"],[("execute_bcc/bra/bsr/dbcc/jmp/jsr/rts/rtr/trap/trapv","interpreter.rs"),("StatusRegister::condition","status_register.rs")],
 ["regs.pc, regs.sp, memory, exception vector"])

p("C11","User-mode code can never gain or touch supervisor state",
 "While the S bit is clear, no single instruction can change S, T, the interrupt mask or the supervisor stack pointer, stop the processor or reset devices: every privileged instruction (STOP, RESET, RTE, MOVE to SR, MOVE USP, ANDI/ORI/EORI to SR) raises privilege violation (vector 8) with no other effect. The only way into supervisor mode is through exception processing.",
 ["inputs","programs"],"all opcodes x all extension words, register and memory contents in user mode; multi-instruction user programs",
 "No existing test runs in user mode.",
 ["interpreter.rs","status_register.rs","isa.rs"],[("check_supervisor","interpreter.rs"),("CCR_MASK / set_ccr","interpreter.rs, status_register.rs")],
 ["regs.sr, regs.ssp, stop, reset_instruction calls, exception vector"])

p("C12","Exception entry builds the CPU's stack frame and RTE undoes it",
 "Processing an exception saves SR and PC on the supervisor stack in the layout of the selected CPU (MC68000 3-word frame and 7-word bus/address error frame; SC68070 4-word and 17-word frames with format/vector word), sets S, clears T, raises the interrupt mask to the level for interrupts only, and continues at the address stored at 4 x vector. The saved PC is that of the next instruction for traps and interrupts and of the offending instruction for illegal, privileged and unimplemented instructions, and RTE (of a normal frame) restores exactly the interrupted PC, SR and stack pointers.",
 ["inputs","configurations","histories"],"all vectors 2-255 x register states x both stack formats (and user-defined CPUs), entered from user or supervisor mode with any T/mask",
 "No existing test processes an exception.",
 ["exception.rs","interpreter.rs","interpreter_fast.rs"],[("process_exception","exception.rs"),("execute_rte","interpreter.rs")],
 ["supervisor stack bytes, regs.sr, regs.pc, regs.usp/ssp"],
 [dict(name="exceptions",meaning="pending exception set",where=S+"lib.rs")])

p("C13","Pending exceptions are prioritised, masked and never lost",
 "Among simultaneously pending exceptions the handler of the one with the highest priority executes first (address error, bus error, trace, interrupt by level, illegal, privilege, then the others; reset cancels everything else), and each of the others is taken exactly once later. An interrupt is taken only if its level is above the current mask or is 7; a masked interrupt stays pending, through any number of steps, until the mask drops, and is then taken.",
 ["histories"],"all sets and sequences of exception requests x interrupt masks x both CPU types, interleaved with execution and mask changes",
 "No existing test requests an exception, and the property is about sets and histories of requests.",
 ["exception.rs"],[("Exception ordering, BTreeSet of pending exceptions","exception.rs"),("process_pending_exceptions","exception.rs")],
 ["order of handler entry, stack frames, regs.sr.interrupt_mask"],
 [dict(name="exceptions",meaning="pending exception set",where=S+"lib.rs")])

p("C14","STOP, wake-up and trace follow the architecture",
 "STOP loads SR and suspends execution: until a reset, a trace or an interrupt above the mask (or level 7) is requested, further steps change nothing, take 0 cycles and raise nothing; such a request (or one already pending and unmasked) resumes execution through its handler with the following instruction's address saved. A non-privileged instruction that starts with T set and completes raises trace (vector 9) after it, an instruction that starts with T clear never does, and exception entry suppresses tracing of the handler.",
 ["histories","inputs"],"all STOP operands x request sequences x masks; every non-privileged instruction with T set or clear",
 "No existing test executes STOP or sets T.",
 ["interpreter_fast.rs","interpreter_disassembler.rs","exception.rs","interpreter.rs","isa.rs"],[("stop flag","lib.rs"),("exception()","exception.rs"),("trace check in interpreter_exception","interpreter_fast.rs")],
 ["M68000::stop, returned cycles and vector, regs"])

p("C15","Memory faults become address/access errors and stay contained",
 "A word or long access at an odd address raises address error (3) and an access that the memory system refuses raises access error (2), for operands, stack and instruction fetch alike; the memory system never receives an odd word or long access, and the emulator itself never panics. The faulting instruction changes no register or memory byte other than those it was architected to change, and its exception frame is usable by the handler.",
 ["fault_sequences","inputs"],"every instruction x every position of refused or odd addresses among its instruction words, operands and stack slots",
 "Existing tests never run an instruction, let alone with refused addresses at every operand position.",
 ["memory_access.rs","addressing_modes.rs","instruction.rs","exception.rs"],[("even()? / ok_or(ACCESS_ERROR)","memory_access.rs, utils.rs"),("MemoryIter::next","memory_access.rs")],
 ["calls received by the MemoryAccess implementation, returned vector, regs, panics"])

p("C16","Reported cycle counts follow the selected CPU's timing tables",
 "The cycle count returned for each completed instruction equals the base time of its instruction form plus the effective-address time (plus 4 once for a long operand in memory or immediate data, and the per-bit or per-register term for shifts and MOVEM) from the selected CPU's tables: the M68000 user's manual for MC68000, the SCC68070 table, or whatever constants a user-defined CPU supplies. Exception processing adds the CPU's vector time exactly once.",
 ["inputs","configurations"],"all valid opcodes x addressing modes x data-dependent outcomes x CPU types, including user-defined CPU details with arbitrary constants",
 "No existing test looks at a cycle count.",
 ["cpu_details.rs","cpu_details/mc68000.rs","cpu_details/scc68070.rs","interpreter.rs","memory_access.rs"],[("CpuDetails constants","cpu_details.rs"),("exec_time accumulation","interpreter.rs, memory_access.rs, addressing_modes.rs")],
 ["return value of interpreter / interpreter_exception"])

p("C17","The run loops do exactly what repeated single steps do",
 "Running for N cycles executes the same instructions as repeated single steps, stops at the first instruction boundary at or after N, and returns the cycles really consumed (at least N, also when the CPU is or becomes stopped); running until an exception returns at the first step that raises one, with the accumulated cycles and that vector and without processing it, or on STOP with none.",
 ["histories","programs"],"all programs x all cycle budgets x pending exceptions x stop states",
 "No existing test calls the run loops.",
 ["interpreter_fast.rs"],[("cycle, cycle_until_exception, loop_until_exception_stop","interpreter_fast.rs")],
 ["return values, regs, memory"])

p("C18","The disassembling interpreter behaves exactly like the plain one",
 "From any state, one step of the disassembling interpreter leaves registers, memory, stop state and pending exceptions exactly as one step of the plain interpreter does, with the same cycles and vector; it additionally returns the address of the executed instruction and the same text as disassembling that address, or an empty string when no instruction was fetched.",
 ["inputs","histories"],"all opcodes and states, with faults, pending exceptions, STOP and trace; sequences of steps",
 "No existing test runs either interpreter.",
 ["interpreter_fast.rs","interpreter_disassembler.rs"],[("two parallel dispatch tables EXECUTE","interpreter_fast.rs, interpreter_disassembler.rs")],
 ["both interpreters' results, regs, memory"])

p("C19","Whole programs run like the reference machine",
 "For any program, initial state, memory map and schedule of interrupt requests, the sequence of architectural states (registers, memory, vectors raised, stop state) produced by stepping the emulator is the one the 68000 architecture prescribes; state hidden between steps (last opcode, pending requests) never leaks into results.",
 ["programs","histories"],"random instruction streams, with handlers, subroutine calls, mode switches, self-modification, injected interrupts, resets and memory faults, tens of steps each",
 "No existing test runs a program.",
 ["interpreter.rs","exception.rs","interpreter_fast.rs","lib.rs"],[("whole interpreter","interpreter*.rs")],
 ["regs, memory, vectors after every step"])

p("C20","Assembled instructions decode back to what was asked",
 "For every assembler function and every accepted argument, the emitted words decode to the same instruction with the same operands and consume exactly the emitted words; conversely every decodable instruction can be re-assembled from its decoded operands to the original words (don't-care bits aside).",
 ["inputs"],"all assembler functions x all accepted argument values (registers, sizes, modes, displacements, immediates, lists)",
 "tests/assembler.rs checks one or two fixed argument tuples per function.",
 ["assembler.rs","addressing_modes.rs","instruction.rs"],[("one function per instruction","assembler.rs"),("AddressingMode::assemble / assemble_move_dst","addressing_modes.rs")],
 ["emitted words, decoded Instruction"])

p("C21","The assembler never emits something other than what it was asked",
 "Arguments that name no valid instruction (register above 7, forbidden addressing mode or size, count, condition or vector out of range, unencodable displacement) make the assembler function panic; it never silently returns words that decode to a different or unknown instruction.",
 ["inputs"],"all assembler functions x arbitrary, including invalid, arguments",
 "Existing tests only pass valid arguments.",
 ["assembler.rs","addressing_modes.rs"],[("asserts and AddressingMode::verify","assembler.rs, addressing_modes.rs")],
 ["panic or emitted words"])

p("C22","Disassembly text names the instruction and all of its operands",
 "The disassembled text of every instruction is the documented syntax for its mnemonic, size, operands in source-then-destination order, immediate values, displacements with branch target, and register lists, so that two instructions that differ in an operand differ in text (don't-care bits and synonyms aside); unknown words print as unknown with their value and address. Disassembling never panics and does not depend on the CPU state.",
 ["inputs"],"all 65536 opcodes x arbitrary extension words x addresses",
 "Existing tests compare about 90 fixed strings.",
 ["disassembler.rs","addressing_modes.rs","status_register.rs"],[("DLUT disassemble functions","disassembler.rs, isa.rs"),("Display for AddressingMode","addressing_modes.rs")],
 ["Instruction::disassemble"])

p("C23","Slices used as memory behave as big-endian memory with bounds",
 "Byte and 16-bit slices used as memory return and store bytes, words and longs in big-endian order at the given byte address, report any access that does not lie entirely inside the slice as out of range without panicking or modifying anything outside of it, and a successful write changes exactly the addressed bytes; immutable slices read identically, and an iterator over memory yields consecutive words.",
 ["inputs","histories"],"all slice lengths (odd ones included) x addresses (wrap-around included) x sequences of reads and writes",
 "tests/memory_access.rs uses one fixed 4-byte buffer.",
 ["memory_access.rs"],[("impl MemoryAccess for [u8], &[u8], [u16], &[u16]","memory_access.rs"),("MemoryIter","memory_access.rs")],
 ["return values, buffer contents"])

p("C24","Status and register helpers are faithful views of the machine state",
 "Converting a status register from and to 16 bits keeps exactly the architected bits (mask 0xA71F) and its bitwise operators agree with the same operation on the 16-bit value; the condition evaluator agrees with the Boolean definition of the 16 conditions; register helpers read and write exactly the addressed part (low byte, low word, A7 as the stack pointer selected by S).",
 ["inputs"],"all 65536 status values x operators x operands; all register contents",
 "tests/status_register.rs checks a few literals.",
 ["status_register.rs","lib.rs","utils.rs"],[("From/Into u16, BitAnd/BitOr/BitXor, condition, set_ccr","status_register.rs"),("Registers methods","lib.rs")],
 ["values"])

p("C25","The C interface is a transparent view of the Rust API",
 "For both CPU kinds, every C function has exactly the effect and result of the Rust method it wraps: same registers, memory traffic through the callbacks (data truncated to the access size, refused accesses raising access error), cycles, vectors (0 meaning none) and text, with strings always NUL-terminated inside the caller's buffer and truncated when it is short. Register pointers stay valid for the life of the core and copies are independent.",
 ["inputs","histories"],"random call histories over the C API against the same history over the Rust API",
 "There are no tests of the C interface at all.",
 ["m68000-ffi/src/lib.rs"],[("cinterface! macro","m68000-ffi/src/lib.rs"),("impl MemoryAccess for m68000_callbacks_t","m68000-ffi/src/lib.rs")],
 ["C function results, callback log, string buffer"])

p("C26","Resetting brings the CPU to the architected reset state",
 "A new core's first step, and any requested reset, loads the supervisor stack pointer and PC from addresses 0 and 4, sets S, clears T, sets the mask to 7, leaves STOP, discards all other pending exceptions and preserves D0-D7/A0-A6/USP; a core created without reset starts executing at once. The RESET instruction in supervisor mode calls the memory system's reset hook exactly once and changes no CPU register but PC.",
 ["histories","inputs"],"all register states, pending exception sets and stop states at the time of the reset; both CPU types",
 "No existing test resets a core.",
 ["exception.rs","lib.rs","interpreter.rs"],[("reset, process_pending_exceptions","exception.rs"),("new / new_no_reset","lib.rs"),("execute_reset","interpreter.rs")],
 ["regs, stop, reset_instruction calls"])

p("C27","Execution is a deterministic function of the core and its memory",
 "A core and its clone fed with equal memories and requests evolve identically, whatever other cores do in between (on any thread) and whichever memory implementation (byte slice, word slice, callbacks, default long accesses or native ones) holds the same bytes; saving and restoring registers, stop state and memory of a core with nothing pending resumes the same execution.",
 ["histories","configurations"],"random programs and request sequences x memory implementations x interleavings of several cores",
 "No existing test runs two cores or two memory implementations side by side.",
 ["lib.rs","memory_access.rs"],[("no global state; M68000: Clone","lib.rs"),("MemoryAccess default methods","memory_access.rs")],
 ["regs, memory, results"])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
