I = "m68000/src/interpreter.rs"
def table(idx, new):
    """Edits entries of the decoder table by rewriting the lines that hold them."""
    src = open("/repo/m68000/src/decoder.rs").read()
    a = src.index("DECODER: [Isa; 65536] = [") + len("DECODER: [Isa; 65536] = [")
    lines = src[a:].split("\n")
    # find the unique surrounding of line k (16 entries per line)
    out = {}
    for i in idx:
        k = 1 + i // 16
        e = out.get(k, lines[k]).strip().rstrip(",").split(", ")
        e[i % 16] = new
        out[k] = "    " + ", ".join(e) + ","
    edits = []
    for k, l in out.items():
        n = 1
        while True:
            old = "\n".join(lines[k - n:k + 1 + n])
            if src.count(old) == 1:
                break
            n += 1
        edits.append(("m68000/src/decoder.rs", old, "\n".join(lines[k - n:k] + [l] + lines[k + 1:k + 1 + n])))
    return edits

BUGS = [
dict(id="c01_tas_pc_relative", property="C01", edits=table([0x4AFA, 0x4AFB], "Tas"),
  needs="executing one of the two reserved words 0x4AFA/0x4AFB (TAS with a PC-relative operand, which the 68000 does not have)",
  breaks="The decoder table names TAS for 0x4AFA and 0x4AFB, so the words write to program space instead of raising illegal instruction.",
  demo=r'''
fn main() {
    for op in [0x4AFAu16, 0x4AFB] {
        check(Isa::from(op) == Isa::Unknown, "0x4AFA/0x4AFB must be unknown");
        let (mut cpu, mut mem) = setup::<Mc68000>(&[op, 0x0010]);
        let before = mem.clone();
        let (_, v) = cpu.interpreter_exception(&mut mem[..]);
        check(v == Some(4), "vector 4 expected");
        check(mem == before, "memory changed");
    }
}'''),

dict(id="c02_word_immediate_sign", property="C02",
  edits=[("m68000/src/addressing_modes.rs", "Self::Immediate(low as u32)", "Self::Immediate(low as i16 as u32)")],
  needs="a word (or byte) immediate source operand whose top bit is set",
  breaks="The decoded immediate operand is sign-extended to 32 bits: MOVE.W #$8000 decodes to the operand 0xFFFF8000. Execution truncates it again, so only decoding and disassembly are wrong.",
  demo=r'''
fn main() {
    let (_, mut mem) = setup::<Mc68000>(&[0x343C, 0x9000]); // MOVE.W #$9000, D2
    let mut it = mem[..].iter_u16(CODE);
    let i = Instruction::from_memory(&mut it).unwrap();
    let (_, _, src) = i.operands.size_effective_address_effective_address();
    check(src == AddressingMode::Immediate(0x9000), "immediate 0x9000 expected");
}'''),

dict(id="c03_addx_overflow_carry_in", property="C03",
  edits=[("m68000/src/utils.rs", """                let (a, b) = self.overflowing_add(rhs);
                let (c, d) = a.overflowing_add(carry as $t);
                (c, b != d)
""", """                let c = self.wrapping_add(rhs.wrapping_add(carry as $t));
                // Overflow when both operands have the same sign and the result has not.
                let rhs = rhs.wrapping_add(carry as $t);
                (c, (self ^ c) & (rhs ^ c) < 0)
""")],
  needs="ADDX whose destination operand is the largest positive value of its size with the X bit set",
  breaks="The signed overflow of ADDX is computed from the addend with the carry already folded in, which wraps when the addend is 0x7F.. and X is set.",
  demo=r'''
fn main() {
    for src in [0x00u32, 0x01, 0x7F, 0x80, 0xFF] {
        for dst in [0x7Fu32, 0x80, 0x00, 0xFF] {
            for x in [false, true] {
                let (mut cpu, mut mem) = setup::<Mc68000>(&[0xD300]); // ADDX.B D0, D1
                cpu.regs.d[0].0 = src;
                cpu.regs.d[1].0 = dst;
                cpu.regs.sr.x = x;
                cpu.interpreter_exception(&mut mem[..]);
                let sum = src as i8 as i32 + dst as i8 as i32 + x as i32;
                check(cpu.regs.d[1].0 == sum as u8 as u32, "ADDX result");
                check(cpu.regs.sr.v == (sum < -128 || sum > 127), "ADDX overflow flag");
            }
        }
    }
}'''),

dict(id="c04_divu_quotient_65536", property="C04",
  edits=[(I, "self.regs.sr.v = quot > u16::MAX as u32;", "self.regs.sr.v = quot > 1 << 16;")],
  needs="DIVU whose quotient is exactly 65536",
  breaks="A quotient of exactly 0x10000 is not reported as overflow: V stays clear and the register receives quotient 0.",
  demo=r'''
fn main() {
    for (dst, src) in [(0x0002_0000u32, 2u32), (0x0002_0001, 2), (0x0001_FFFF, 2), (0x7530_0000, 0x7530)] {
        let (mut cpu, mut mem) = setup::<Mc68000>(&[0x82C0]); // DIVU D0, D1
        cpu.regs.d[0].0 = src;
        cpu.regs.d[1].0 = dst;
        cpu.interpreter_exception(&mut mem[..]);
        let q = dst / src;
        check(cpu.regs.sr.v == (q > 0xFFFF), "DIVU overflow flag");
        check(cpu.regs.d[1].0 == if q > 0xFFFF { dst } else { (dst % src) << 16 | q }, "DIVU result");
    }
}'''),

dict(id="c05_abcd_digit_carry_from_x", property="C05",
  edits=[(I, "let adjust = ((src & 0x0F) + (dst & 0x0F) + self.regs.sr.x as u8) > 0x0F;",
             "let adjust = ((src & 0x0F) + (dst & 0x0F)) > 0x0F;")],
  needs="ABCD with X set and low digits that add up to exactly 15 (7+8 or 6+9)",
  breaks="The carry out of the low digit caused by the X bit alone (7+8+1) is not seen, so the digit is not adjusted.",
  demo=r'''
fn main() {
    for a in 0..100u32 {
        for b in 0..100u32 {
            for x in 0..2u32 {
                let bcd = |v: u32| (v / 10) << 4 | v % 10;
                let (mut cpu, mut mem) = setup::<Mc68000>(&[0xC300]); // ABCD D0, D1
                cpu.regs.d[0].0 = bcd(a);
                cpu.regs.d[1].0 = bcd(b);
                cpu.regs.sr.x = x == 1;
                cpu.interpreter_exception(&mut mem[..]);
                let s = a + b + x;
                check(cpu.regs.d[1].0 == bcd(s % 100) && cpu.regs.sr.c == (s > 99), "ABCD result");
            }
        }
    }
}'''),

dict(id="c06_ccr_immediate_keeps_trace", property="C06",
  edits=[(I, "pub(super) const SR_UPPER_MASK: u16 = 0xA700;", "pub(super) const SR_UPPER_MASK: u16 = 0x2700;")],
  needs="ANDI to CCR (or RTR) executed while the trace bit is set",
  breaks="The mask of the bits that ANDI #imm, CCR and RTR must preserve lacks T, so they switch tracing off.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x023C, 0x00FF]); // ANDI #$FF, CCR
    cpu.regs.sr = 0xA51Fu16.into();
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(u16::from(cpu.regs.sr) == 0xA51F, "ANDI to CCR must not change the upper byte of SR");
    check(v == Some(9), "the instruction is traced");
}'''),

dict(id="c07_ror_long_count_32", property="C07",
  edits=[(I, """    pub(super) fn execute_ror(&mut self, rot: u8, dir: Direction, size: Size, ir: bool, reg: u8) -> InterpreterResult {
        self.regs.sr.v = false;
        self.regs.sr.c = false;

        let shift_count = if ir {
            (self.regs.d[rot as usize].0 % 64) as u8
        } else if rot == 0 {
            8
        } else {
            rot
        };
""", """    pub(super) fn execute_ror(&mut self, rot: u8, dir: Direction, size: Size, ir: bool, reg: u8) -> InterpreterResult {
        self.regs.sr.v = false;
        self.regs.sr.c = false;

        let shift_count = if ir {
            (self.regs.d[rot as usize].0 % 64) as u8
        } else if rot == 0 {
            8
        } else {
            rot
        };

        // A full turn gives back the same value.
        let turns = shift_count % (size as u8 * 8);
"""), (I, """                let sign = data & mask;
                data <<= 1;
                if sign != 0 {
                    data |= 1;
                }
                self.regs.sr.c = sign != 0;
            }
        } else {
            for _ in 0..shift_count {
                let bit = data & 1;
                data >>= 1;
                if bit != 0 {
                    data |= mask;
                }
""", """                let sign = data & mask;
                data <<= 1;
                if sign != 0 {
                    data |= 1;
                }
                self.regs.sr.c = sign != 0;
            }
        } else {
            for _ in 0..turns {
                let bit = data & 1;
                data >>= 1;
                if bit != 0 {
                    data |= mask;
                }
""")],
  needs="ROR with a register count that is a non-zero multiple of the operand width, and the top bit of the operand set",
  breaks="ROR skips complete turns of the rotation, which leaves C clear instead of equal to the bit rotated last.",
  demo=r'''
fn main() {
    for (op, bits) in [(0xE038u16, 8u32), (0xE078, 16), (0xE0B8, 32)] { // ROR.s D0, D0 -> use D1 count
        for count in 0..64u32 {
            let (mut cpu, mut mem) = setup::<Mc68000>(&[op | 1 << 9]); // ROR.s D1, D0
            let value = 1u32 << (bits - 1) | 5;
            cpu.regs.d[0].0 = value;
            cpu.regs.d[1].0 = count;
            cpu.interpreter_exception(&mut mem[..]);
            let (mut v, mut c) = (value, false);
            for _ in 0..count {
                c = v & 1 != 0;
                v = v >> 1 | if c { 1 << (bits - 1) } else { 0 };
            }
            check(cpu.regs.d[0].0 == v, "ROR result");
            check(cpu.regs.sr.c == c, "ROR carry");
        }
    }
}'''),

dict(id="c08_movem_predec_base_in_list", property="C08",
  edits=[(I, """                    addr = addr.wrapping_sub(gap);
                    if size.is_word() {
                        memory.set_word(addr, self.regs.a(reg) as u16).ok_or(ACCESS_ERROR)?;
                    } else {
                        memory.set_long(addr, self.regs.a(reg)).ok_or(ACCESS_ERROR)?;
                    }
""", """                    addr = self.ariwpr(eareg, size);
                    if size.is_word() {
                        memory.set_word(addr, self.regs.a(reg) as u16).ok_or(ACCESS_ERROR)?;
                    } else {
                        memory.set_long(addr, self.regs.a(reg)).ok_or(ACCESS_ERROR)?;
                    }
""")],
  needs="MOVEM to -(An) with An itself in the register list",
  breaks="The base register is decremented while the list is stored, so when it is itself in the list its decremented value is stored instead of the initial one.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x48E3, 0x8019]); // MOVEM.L D0/A3/A4/A7, -(A3)
    cpu.regs.d[0].0 = 0x1111_1111;
    cpu.regs.a[3].0 = 0x6000;
    cpu.regs.a[4].0 = 0x2222_2222;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.a[3].0 == 0x5FF0, "final A3");
    check(long(&mem, 0x5FF0) == 0x1111_1111 && long(&mem, 0x5FF8) == 0x2222_2222 && long(&mem, 0x5FFC) == 0x8000, "stored registers");
    check(long(&mem, 0x5FF4) == 0x6000, "the initial value of A3 is stored");
}'''),

dict(id="c09_address_index_word_unsigned", property="C09",
  edits=[("m68000/src/addressing_modes.rs", "self.regs.a(reg) as i16 as u32", "self.regs.a(reg) as u16 as u32")],
  needs="an indexed addressing mode with a word-sized address register index whose low word is negative",
  breaks="The word index taken from an address register is zero-extended instead of sign-extended.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x43F0, 0x9004]); // LEA (4, A0, A1.W), A1
    cpu.regs.a[0].0 = 0x0002_0000;
    cpu.regs.a[1].0 = 0x0001_FFFE;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.a[1].0 == 0x0002_0002, "effective address");
}'''),

dict(id="c10_dbcc_borrows_from_high_word", property="C10",
  edits=[(I, """            let counter = (self.regs.d[reg as usize].0 as i16).wrapping_sub(1);
            self.regs.d_word(reg, counter as u16);

            if counter != -1 {""", """            self.regs.d[reg as usize] -= 1;

            if self.regs.d[reg as usize].0 as i16 != -1 {""")],
  needs="DBcc whose counter word reaches -1",
  breaks="DBcc decrements the whole data register: when the loop ends the borrow goes into the high word.",
  demo=r'''
fn main() {
    for n in 0..4u32 {
        let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71, 0x51CD, 0xFFFC]); // NOP; DBF D5, -4
        cpu.regs.d[5].0 = 0xABCD_0000 | n;
        let mut steps = 0;
        while cpu.regs.pc.0 != CODE + 6 {
            cpu.interpreter_exception(&mut mem[..]);
            steps += 1;
            check(steps < 100, "the loop ends");
        }
        check(steps == 2 * (n + 1), "number of turns");
        check(cpu.regs.d[5].0 == 0xABCD_FFFF, "the high word of the counter register is kept");
    }
}'''),

dict(id="c11_movesr_operand_before_privilege", property="C11",
  edits=[(I, """        self.check_supervisor()?;

        let mut ea = EffectiveAddress::new(am, Some(Size::Word));
        let mut exec_time = CPU::MOVESR;

        let sr = self.get_word(memory, &mut ea, &mut exec_time)?;
        self.regs.sr = sr.into();""", """        let mut ea = EffectiveAddress::new(am, Some(Size::Word));
        let mut exec_time = CPU::MOVESR;

        let sr = self.get_word(memory, &mut ea, &mut exec_time)?;
        self.check_supervisor()?;
        self.regs.sr = sr.into();""")],
  needs="MOVE to SR in user mode with a postincrement or predecrement operand, or one that cannot be read",
  breaks="MOVE to SR fetches its operand before checking the privilege: in user mode the address register has changed when the privilege violation is raised, and an unreadable operand raises access error instead.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x46DA]); // MOVE (A2)+, SR
    cpu.regs.sr = 0u16.into();
    cpu.regs.a[2].0 = 0x3000;
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(8), "privilege violation");
    check(cpu.regs.a[2].0 == 0x3000, "no side effect");
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x46F9, 0x0100, 0x0000]); // MOVE ($1000000).L, SR
    cpu.regs.sr = 0u16.into();
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(8), "privilege violation, not access error");
}'''),

dict(id="c12_scc_format_word_high_vectors", property="C12",
  edits=[("m68000/src/exception.rs", "self.push_word(memory, vector as u16 * 4)?;", "self.push_word(memory, vector.wrapping_mul(4) as u16)?;")],
  needs="an SC68070 exception with a vector number of 64 or more",
  breaks="The vector offset of the short frame is computed in 8 bits, so user interrupts store the offset of another vector.",
  demo=r'''
fn main() {
    for v in [5u8, 24, 63, 64, 100, 255] {
        let (mut cpu, mut mem) = setup::<Scc68070>(&[0x4E71]);
        cpu.exception(Exception::from(v));
        cpu.regs.sr = 0x2000u16.into();
        cpu.interpreter_exception(&mut mem[..]);
        check(cpu.regs.ssp.0 == 0x7FF8, "frame size");
        check(word(&mem, 0x7FFE) == v as u16 * 4, "format and vector offset word");
    }
}'''),

dict(id="c13_masked_interrupt_dropped", property="C13",
  edits=[("m68000/src/exception.rs", """        for ex in &to_process {
            self.exceptions.remove(ex);
        }
""", """        if !to_process.is_empty() {
            self.exceptions.clear();
        }
""")],
  needs="a masked interrupt is pending when another exception is processed, and the mask drops later",
  breaks="Processing any exception forgets the masked interrupts that were pending with it.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E40, 0x4E71, 0x46FC, 0x2000, 0x4E71]); // TRAP #0; NOP; MOVE #$2000, SR
    put(&mut mem, 0x4000 + 16 * 32, &[0x4E73]); // the TRAP #0 handler is RTE
    cpu.regs.sr = 0x2500u16.into();
    cpu.exception(Exception::from(Vector::Level3Interrupt));
    for _ in 0..5 {
        cpu.interpreter(&mut mem[..]);
    }
    check(cpu.regs.pc.0 > 0x4000 + 16 * 27 && cpu.regs.pc.0 < 0x4000 + 16 * 28, "the level 3 interrupt is taken when the mask drops");
}'''),

dict(id="c14_move_from_sr_not_traced", property="C14",
  edits=[("m68000/src/isa.rs", "matches!(self, Andisr | Eorisr | Movesr | Moveusp", "matches!(self, Andisr | Eorisr | Movefsr | Movesr | Moveusp")],
  needs="MOVE from SR executed with the trace bit set",
  breaks="MOVE from SR, which is not privileged on the 68000, counts as privileged and is not traced.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x40C0]); // MOVE SR, D0
    cpu.regs.sr = 0x8000u16.into();
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(9), "trace exception after MOVE from SR");
}'''),

dict(id="c15_pop_word_unaligned", property="C15",
  edits=[("m68000/src/memory_access.rs", """        let addr = self.ariwpo(7, Size::Word);
        memory.get_word(addr.even()?).ok_or(ACCESS_ERROR)""", """        let addr = self.ariwpo(7, Size::Word);
        memory.get_word(addr).ok_or(ACCESS_ERROR)""")],
  needs="RTR or RTE with an odd stack pointer",
  breaks="Popping a word does not check the alignment: with an odd stack pointer the memory system sees an odd word access (and RTR loads the CCR from it) before the fault.",
  demo=r'''
struct Odd(Vec<u8>, bool);
impl MemoryAccess for Odd {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.0[..].get_byte(a) }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.1 |= a & 1 != 0; self.0[..].get_word(a) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.0[..].set_byte(a, v) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.1 |= a & 1 != 0; self.0[..].set_word(a, v) }
    fn reset_instruction(&mut self) {}
}
fn main() {
    for op in [0x4E77u16, 0x4E73] { // RTR, RTE
        let (mut cpu, mem) = setup::<Mc68000>(&[op]);
        cpu.regs.ssp.0 = 0x7001;
        let mut m = Odd(mem, false);
        let (_, v) = cpu.interpreter_exception(&mut m);
        check(v == Some(3), "address error");
        check(!m.1, "the memory never sees an odd word access");
    }
}'''),

dict(id="c16_bsr_word_short_displacement_time", property="C16",
  edits=[(I, """        Ok(if self.current_opcode as u8 == 0 {
            CPU::BSR_WORD""", """        Ok(if i8::try_from(disp).is_err() {
            CPU::BSR_WORD""")],
  needs="BSR with a 16-bit displacement field that holds a value between -128 and 127, on the SCC68070 (where the two forms differ)",
  breaks="The time of BSR is chosen from the displacement value and not from the encoding, so a word BSR with a small displacement is counted as the byte form.",
  demo=r'''
fn main() {
    let time = |code: &[u16]| {
        let (mut cpu, mut mem) = setup::<Scc68070>(code);
        cpu.interpreter_exception(&mut mem[..]).0
    };
    check(time(&[0x6110]) == Scc68070::BSR_BYTE, "byte BSR");
    check(time(&[0x6100, 0x0110]) == Scc68070::BSR_WORD, "word BSR");
    check(time(&[0x6100, 0x0010]) == Scc68070::BSR_WORD, "word BSR with a small displacement");
}'''),

dict(id="c17_cycle_runs_one_more", property="C17",
  edits=[("m68000/src/interpreter_fast.rs", """        while total < cycles {
            total += self.interpreter(memory);
""", """        while total <= cycles {
            total += self.interpreter(memory);
""")],
  needs="the requested cycles end exactly at an instruction boundary",
  breaks="cycle() executes one more instruction when the cycles executed are exactly the cycles requested.",
  demo=r'''
fn main() {
    for n in 1..12usize {
        let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71; 16]); // NOPs of 4 cycles
        let got = cpu.cycle(&mut mem[..], n);
        let want = (n + 3) / 4;
        check(got == want * 4, "cycles returned");
        check(cpu.regs.pc.0 == CODE + 2 * want as u32, "instructions executed");
    }
}'''),

dict(id="c18_disassembling_trace_sampled_early", property="C18",
  edits=[("m68000/src/interpreter_disassembler.rs", """        let mut cycle_count = 0;

        if !self.exceptions.is_empty() {""", """        let mut cycle_count = 0;
        let trace = self.regs.sr.t;

        if !self.exceptions.is_empty() {"""),
         ("m68000/src/interpreter_disassembler.rs", """        let dis = instruction.disassemble();
        let trace = self.regs.sr.t;
""", """        let dis = instruction.disassemble();
""")],
  needs="an exception is processed by the disassembling interpreter while the trace bit is set",
  breaks="The disassembling interpreter reads T before processing the pending exceptions, so the first instruction of a handler is traced although exception entry clears T.",
  demo=r'''
fn main() {
    let run = |dis: bool| {
        let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71]);
        cpu.regs.sr = 0x8000u16.into();
        cpu.exception(Exception::from(Vector::Level4Interrupt));
        if dis {
            let (_, _, c, v) = cpu.disassembler_interpreter_exception(&mut mem[..]);
            (c, v, cpu.regs)
        } else {
            let (c, v) = cpu.interpreter_exception(&mut mem[..]);
            (c, v, cpu.regs)
        }
    };
    check(run(false) == run(true), "the two interpreters agree");
    check(run(true).1.is_none(), "the handler is not traced");
}'''),

dict(id="c19_rte_restores_sr_before_format", property="C19",
  edits=[(I, """        self.regs.pc.0 = self.pop_long(memory)?;
        let mut exec_time = CPU::RTE;

        if CPU::STACK""", """        self.regs.pc.0 = self.pop_long(memory)?;
        self.regs.sr = sr.into();
        let mut exec_time = CPU::RTE;

        if CPU::STACK"""),
         (I, """                return Err(Vector::FormatError as u8);
            }
        }

        self.regs.sr = sr.into();
""", """                return Err(Vector::FormatError as u8);
            }
        }
""")],
  needs="an SCC68070 program that returns from an exception to user mode",
  breaks="RTE restores SR before it pops the format word, so on a return to user mode the format word is taken from the user stack: USP moves by 2 and SSP leaks 2 bytes at each exception.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Scc68070>(&[0x4E41, 0x4E71]); // TRAP #1; NOP
    put(&mut mem, 0x4000 + 16 * 33, &[0x4E73]); // RTE
    cpu.regs.sr = 0u16.into();
    for _ in 0..3 {
        cpu.interpreter(&mut mem[..]);
    }
    check(cpu.regs.pc.0 == CODE + 4, "program goes on after the trap");
    check(cpu.regs.usp.0 == 0x7000 && cpu.regs.ssp.0 == 0x8000, "both stack pointers are restored");
}'''),

dict(id="c20_absolute_long_shortened", property="C20",
  edits=[("m68000/src/addressing_modes.rs", "AddressingMode::AbsLong(addr) => (7 << 3 | 1, Box::new([(addr >> 16) as u16, addr as u16])),",
   "AddressingMode::AbsLong(addr) if addr <= 0xFFFF => (7 << 3, Box::new([addr as u16])),\n            AddressingMode::AbsLong(addr) => (7 << 3 | 1, Box::new([(addr >> 16) as u16, addr as u16])),")],
  needs="assembling an absolute long operand whose address is below 0x10000",
  breaks="Absolute long operands below 0x10000 are emitted as absolute short: the decoded operand is another one, and for 0x8000-0xFFFF it even designates another address.",
  demo=r'''
fn main() {
    for addr in [0x10u32, 0x7FFE, 0x8000, 0xFFFE, 0x10000, 0xFFFF_8000] {
        let words = m68000::assembler::jsr(AddressingMode::AbsLong(addr));
        let (_, mut mem) = setup::<Mc68000>(&words);
        let i = Instruction::from_memory(&mut mem[..].iter_u16(CODE)).unwrap();
        check(i.operands.effective_address() == AddressingMode::AbsLong(addr), "operand of the assembled JSR");
    }
}'''),

dict(id="c21_movem_store_pc_relative", property="C21",
  edits=[("m68000/src/assembler.rs", 'assert!(am.verify(&[2, 4, 5, 6, 7], &[0, 1]), "Invalid addressing mode.");', 'assert!(am.verify(&[2, 4, 5, 6, 7], &[0, 1, 2, 3]), "Invalid addressing mode.");')],
  needs="asking the assembler for MOVEM registers to a PC-relative destination",
  breaks="MOVEM to memory accepts PC-relative destinations and emits words that are not a 68000 instruction.",
  demo=r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for am in [AddressingMode::Pciwd(0, 4), AddressingMode::Pciwi8(0, BriefExtensionWord(4)), AddressingMode::Ariwpo(1)] {
        let r = std::panic::catch_unwind(|| m68000::assembler::movem(Direction::RegisterToMemory, Size::Long, am, 3));
        check(r.is_err(), "MOVEM to this destination must be refused");
    }
    check(std::panic::catch_unwind(|| m68000::assembler::movem(Direction::RegisterToMemory, Size::Long, AddressingMode::AbsShort(4), 3)).is_ok(), "valid MOVEM");
}'''),

dict(id="c22_roxr_count_eight_text", property="C22",
  edits=[("m68000/src/disassembler.rs", """        format!("ROX{d}.{s} D{rot}, D{reg}")
    } else {
        let rot = if rot == 0 { 8 } else { rot };
""", """        format!("ROX{d}.{s} D{rot}, D{reg}")
    } else {
""")],
  needs="disassembling ROXL or ROXR with the immediate count 8",
  breaks="The immediate count 8 of ROXL/ROXR, encoded as 0, is printed as #0.",
  demo=r'''
fn main() {
    for n in 1..9u16 {
        let (_, mut mem) = setup::<Mc68000>(&[0xE150 | (n & 7) << 9]); // ROXL.W #n, D0
        let i = Instruction::from_memory(&mut mem[..].iter_u16(CODE)).unwrap();
        check(i.disassemble() == format!("ROXL.W #{n}, D0"), "text of ROXL");
    }
}'''),

dict(id="c23_word_slice_bus_width", property="C23",
  edits=[("m68000/src/memory_access.rs", """impl MemoryAccess for [u16] {
    fn get_byte(&mut self, addr: u32) -> Option<u8> {
        let a = addr as usize >> 1;""", """impl MemoryAccess for [u16] {
    fn get_byte(&mut self, addr: u32) -> Option<u8> {
        let a = (addr & 0x00FF_FFFF) as usize >> 1; // 24 bits address bus.""")],
  needs="a byte read from a [u16] memory at an address of 16 MiB or more",
  breaks="Byte reads from a mutable 16-bit slice ignore the upper byte of the address: accesses out of range return the data of another address instead of an access error.",
  demo=r'''
fn main() {
    let mut mem = vec![0x1234u16, 0x5678];
    let m = &mut mem[..];
    check(m.get_byte(1) == Some(0x34) && m.get_byte(2) == Some(0x56), "bytes in range");
    for a in [4u32, 0x0100_0000, 0x8000_0001, 0xFF00_0003] {
        check(m.get_byte(a).is_none(), "byte out of range");
    }
}'''),

dict(id="c24_or_takes_higher_mask", property="C24",
  edits=[("m68000/src/status_register.rs", "self.interrupt_mask |= bits(rhs, 8, 10) as u8;", "self.interrupt_mask = self.interrupt_mask.max(bits(rhs, 8, 10) as u8);")],
  needs="ORing two interrupt masks neither of which contains the other (1 | 2, 3 | 5, ...); ORI to SR with masks 0 or 7 behaves",
  breaks="OR into the status register keeps the higher of the two interrupt masks instead of their union.",
  demo=r'''
fn main() {
    for a in 0..8u16 {
        for b in 0..8u16 {
            let mut s = m68000::status_register::StatusRegister::from(0x2000 | a << 8);
            s |= b << 8;
            check(u16::from(s) == 0x2000 | (a | b) << 8, "interrupt mask OR");
        }
    }
}'''),

dict(id="c25_disassembly_exact_fit", property="C25", ffi=True,
  edits=[("m68000-ffi/src/lib.rs", """                    let (pc, dis, cycles, vector) = (*m68000).disassembler_interpreter_exception(&mut *memory);

                    let cstring = CString::new(dis).expect("New CString for disassembler failed")
                        .into_bytes_with_nul();
                    let raw_cstring = std::mem::transmute::<*const u8, *const c_char>(cstring.as_ptr());

                    if cstring.len() <= len {""", """                    let (pc, dis, cycles, vector) = (*m68000).disassembler_interpreter_exception(&mut *memory);

                    let cstring = CString::new(dis).expect("New CString for disassembler failed")
                        .into_bytes_with_nul();
                    let raw_cstring = std::mem::transmute::<*const u8, *const c_char>(cstring.as_ptr());

                    if cstring.len() - 1 <= len {""")],
  needs="m68000_*_disassembler_interpreter_exception with a buffer exactly as long as the text without its terminator",
  breaks="When the text has exactly the length of the buffer the terminating NUL is written one byte past its end.",
  demo=r'''
use m68000_ffi::mc68000::*;
use m68000_ffi::*;
use std::ffi::c_void;
fn ok(data: u32) -> m68000_memory_result_t { m68000_memory_result_t { data, exception: 0 } }
extern "C" fn get(_: u32, _: *mut c_void) -> m68000_memory_result_t { ok(0x4E71) }
extern "C" fn sb(_: u32, _: u8, _: *mut c_void) -> m68000_memory_result_t { ok(0) }
extern "C" fn sw(_: u32, _: u16, _: *mut c_void) -> m68000_memory_result_t { ok(0) }
extern "C" fn sl(_: u32, _: u32, _: *mut c_void) -> m68000_memory_result_t { ok(0) }
extern "C" fn rst(_: *mut c_void) {}
fn main() {
    for len in 1..6usize {
        let mut cb = m68000_callbacks_t { get_byte: get, get_word: get, get_long: get, set_byte: sb, set_word: sw, set_long: sl,
            reset_instruction: rst, user_data: std::ptr::null_mut() };
        let mut buf = [0x55 as std::os::raw::c_char; 16];
        unsafe {
            let core = m68000_mc68000_new_no_reset();
            m68000_mc68000_disassembler_interpreter_exception(core, &mut cb, buf.as_mut_ptr(), len); // NOP
            m68000_mc68000_delete(core);
        }
        let n = 3.min(len - 1);
        check(buf[n] == 0, "text terminated inside the buffer");
        check(buf[len..].iter().all(|c| *c == 0x55), "nothing written past the buffer");
    }
}'''),

dict(id="c26_reset_keeps_masked_interrupts", property="C26",
  edits=[("m68000/src/exception.rs", "self.exceptions.clear(); // The reset vector clears all the pending interrupts.",
          "self.exceptions.retain(|ex| ex.is_interrupt()); // The reset vector clears all the pending exceptions.")],
  needs="a reset requested while a masked interrupt is pending, and the mask lowered afterwards",
  breaks="A reset leaves the masked interrupts pending: they are taken when the program lowers the mask later.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x46FC, 0x2000, 0x4E71, 0x4E71]); // MOVE #$2000, SR; NOP; NOP
    put(&mut mem, 0, &[0, 0x8000, 0, CODE as u16]);
    cpu.exception(Exception::from(Vector::Level2Interrupt));
    cpu.exception(Exception::from(Vector::ResetSspPc));
    for _ in 0..3 {
        cpu.interpreter(&mut mem[..]);
    }
    check(cpu.regs.pc.0 == CODE + 8, "no interrupt after the reset");
}'''),

dict(id="c27_pending_scratch_shared", property="C27",
  edits=[("m68000/src/exception.rs", """        // TODO: use extract_if when stable.
        let mut to_process = Vec::new();
""", """        // TODO: use extract_if when stable.
        thread_local! {
            /// Reused to not allocate at each exception.
            static SCRATCH: std::cell::RefCell<Vec<Exception>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        let mut to_process = SCRATCH.take();
"""), ("m68000/src/exception.rs", "let exceptions: BTreeSet<_> = to_process.into_iter().collect();", "let exceptions: BTreeSet<_> = to_process.iter().copied().collect();"),
   ("m68000/src/exception.rs", """                self.exceptions.clear(); // The reset vector clears all the pending interrupts.
""", """                self.exceptions.clear(); // The reset vector clears all the pending interrupts.
                SCRATCH.set(to_process);
"""), ("m68000/src/exception.rs", """                    0
                },
            };
        }

        total
""", """                    0
                },
            };
        }

        to_process.clear();
        SCRATCH.set(to_process);
        total
""")],
  needs="a reset processed by one core while it has other exceptions pending, then any exception processed by another core on the same thread",
  breaks="The list of exceptions to process is a reused thread-local vector which a reset returns without clearing: the next core that processes an exception on that thread also takes the exceptions of the first one.",
  demo=r'''
fn main() {
    let run = || {
        let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E41, 0x4E71]); // TRAP #1
        cpu.interpreter(&mut mem[..]);
        cpu.interpreter(&mut mem[..]);
        (cpu.regs, mem)
    };
    let alone = run();
    let (mut other, mut mem) = setup::<Mc68000>(&[0x4E71]);
    put(&mut mem, 0, &[0, 0x8000, 0, CODE as u16]);
    other.regs.sr = 0x2000u16.into();
    other.exception(Exception::from(Vector::Level4Interrupt));
    other.exception(Exception::from(Vector::ResetSspPc));
    other.interpreter(&mut mem[..]);
    check(run() == alone, "a core is not affected by what another one did");
}'''),
]
