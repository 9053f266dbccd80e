# Second round: several conditions at once, aliasing of registers, rare values, histories.
I = "m68000/src/interpreter.rs"
F = "m68000/src/interpreter_fast.rs"
D = "m68000/src/interpreter_disassembler.rs"
E = "m68000/src/exception.rs"
A = "m68000/src/addressing_modes.rs"
N = "m68000/src/instruction.rs"
X = "m68000/src/assembler.rs"
S = "m68000/src/disassembler.rs"
M = "m68000/src/memory_access.rs"

BUGS = [
dict(id="c02_branch_ff_word", property="C02",
  edits=[(N, """    let mut disp = opcode as i8 as i16;
    if disp == 0 {
        disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
    }
    let condition""", """    let mut disp = opcode as i8 as i16;
    if disp == 0 || disp == -1 {
        disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
    }
    let condition""")],
  needs="Bcc with a byte displacement of -1 (0xFF, which selects an extension on later processors only)",
  breaks="Bcc with displacement byte 0xFF takes an extension word.",
  demo=r'''
fn main() {
    let (_, mut mem) = setup::<Mc68000>(&[0x66FF, 0x0010]);
    let mut it = mem[..].iter_u16(CODE);
    let i = Instruction::from_memory(&mut it).unwrap();
    check(it.next_addr == CODE + 2, "length of BNE -1");
    check(i.operands.condition_displacement() == (6, -1), "operands of BNE -1");
}'''),

dict(id="c02_bit_immediate_long", property="C02",
  edits=[(N, "let size = if eamode == 0 { Some(Size::Long) } else { Some(Size::Byte) };", "let size = if eamode == 0 || eamode == 7 { Some(Size::Long) } else { Some(Size::Byte) };")],
  needs="BTST Dn,#imm, the only bit instruction with an immediate operand",
  breaks="The byte immediate of BTST Dn,#imm is read as two words, so the instruction is one word too long.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x033C, 0x0004, 0x4E71]); // BTST D1, #4
    cpu.regs.d[1].0 = 2;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.pc.0 == CODE + 4, "length of BTST D1, #4");
    check(!cpu.regs.sr.z, "bit 2 of 4 is set");
}'''),

dict(id="c03_cmpm_same_register", property="C03",
  edits=[(I, """        let addry = self.ariwpo(ay, size);
        let addrx = self.ariwpo(ax, size);
""", """        let addrx = self.ariwpo(ax, size);
        let addry = self.ariwpo(ay, size);
""")],
  needs="CMPM with the same address register for both operands",
  breaks="CMPM (An)+,(An)+ compares in the wrong direction: the destination is read first.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xB34A | 0x0000]); // CMPM.W (A2)+, (A1)+
    cpu.regs.a[1].0 = 0x3000;
    cpu.regs.a[2].0 = 0x3002;
    put(&mut mem, 0x3000, &[1, 2]);
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.sr.c, "1 - 2 borrows");
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xB349]); // CMPM.W (A1)+, (A1)+
    cpu.regs.a[1].0 = 0x3000;
    put(&mut mem, 0x3000, &[1, 2]);
    cpu.interpreter_exception(&mut mem[..]);
    check(!cpu.regs.sr.c && !cpu.regs.sr.n, "the source is the first word: 2 - 1");
    check(cpu.regs.a[1].0 == 0x3004, "incremented twice");
}'''),

dict(id="c03_addq_word_address_register", property="C03",
  edits=[(I, "*self.regs.a_mut(am.register().unwrap()) += imm as u32;\n            return", "let reg = self.regs.a_mut(am.register().unwrap());\n            reg.0 = if size.is_long() { reg.0.wrapping_add(imm as u32) } else { (reg.0 as u16).wrapping_add(imm as u16) as i16 as u32 };\n            return")],
  needs="ADDQ.W to an address register whose value does not fit a sign-extended word, or overflows it",
  breaks="ADDQ.W #n,An computes on 16 bits and sign-extends instead of using the whole address register.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x5049]); // ADDQ.W #8, A1
    cpu.regs.a[1].0 = 0x0001_FFFC;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.a[1].0 == 0x0002_0004, "ADDQ.W on an address register");
}'''),

dict(id="c04_divs_remainder_sign", property="C04",
  edits=[(I, """        let quot = dst.wrapping_div(src);
        let rem = dst.wrapping_rem(src);

        self.regs.sr.n = (quot as i16) < 0; // Undefined on overflow.""", """        let quot = dst.wrapping_div(src);
        let rem = dst.wrapping_sub(src.wrapping_mul(quot)).abs();

        self.regs.sr.n = (quot as i16) < 0; // Undefined on overflow.""")],
  needs="DIVS with a negative dividend and a non-zero remainder",
  breaks="The remainder of DIVS loses the sign of the dividend.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x83C2]); // DIVS D2, D1
    cpu.regs.d[1].0 = -7i32 as u32;
    cpu.regs.d[2].0 = 2;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.d[1].0 == 0xFFFF_FFFD, "-7 / 2 = -3 remainder -1");
}'''),

dict(id="c04_chk_upper_bound_unsigned", property="C04",
  edits=[(I, "if data < 0 || data > src {", "if data < 0 || data as u16 > src as u16 {")],
  needs="CHK with a negative bound",
  breaks="CHK compares with the bound as an unsigned number, so a negative bound never traps.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4382]); // CHK D2, D1
    cpu.regs.d[1].0 = 5;
    cpu.regs.d[2].0 = 0xFFFF;
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(6), "5 > -1");
}'''),

dict(id="c05_abcd_zero_from_binary", property="C05",
  edits=[(I, """        self.regs.sr.n = res & 0x80 != 0;
        if res != 0 { self.regs.sr.z = false; }
        self.regs.sr.v = res < 0x80 && bin_res >= 0x80;""", """        self.regs.sr.n = res & 0x80 != 0;
        if bin_res != 0 { self.regs.sr.z = false; }
        self.regs.sr.v = res < 0x80 && bin_res >= 0x80;""")],
  needs="SBCD or NBCD whose decimal result is 0 while the binary difference is not (0x10 - 0x09 - X)",
  breaks="SBCD/NBCD clear Z from the uncorrected difference.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x8302]); // SBCD D2, D1
    cpu.regs.sr = 0x2714u16.into(); // X, Z
    cpu.regs.d[1].0 = 0x10;
    cpu.regs.d[2].0 = 0x09;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.d[1].0 == 0, "10 - 9 - 1");
    check(cpu.regs.sr.z, "Z is unchanged when the result is 0");
}'''),

dict(id="c10_rtr_restores_trace", property="C10",
  edits=[(I, "self.regs.sr &= SR_UPPER_MASK;\n        self.regs.sr |= ccr & CCR_MASK;", "self.regs.sr &= SR_UPPER_MASK & 0x7F00;\n        self.regs.sr |= ccr & (CCR_MASK | 0x8000);")],
  needs="RTR popping a word whose bit 15 differs from T",
  breaks="RTR also restores the trace bit, although only the condition codes may change.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E77]);
    put(&mut mem, 0x8000, &[0xFFFF, 0, 0x2000]);
    cpu.regs.sr = 0x2300u16.into();
    cpu.interpreter_exception(&mut mem[..]);
    check(u16::from(cpu.regs.sr) == 0x231F, "only the CCR changes");
}'''),

dict(id="c06_btst_memory_modulo_32", property="C06",
  edits=[(I, """            count %= 8;
            let data = self.get_byte(memory, &mut ea, &mut exec_time)?;
            self.regs.sr.z = data & 1 << count == 0;
""", """            let data = self.get_byte(memory, &mut ea, &mut exec_time)? as u32;
            self.regs.sr.z = data & 1 << (count % 32) == 0;
""")],
  needs="BTST on memory with a bit number whose bits 3-4 are not 0",
  breaks="BTST on a memory byte takes the bit number modulo 32 and not 8.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x0311]); // BTST D1, (A1)
    cpu.regs.d[1].0 = 10;
    cpu.regs.a[1].0 = 0x3000;
    mem[0x3000] = 4;
    cpu.interpreter_exception(&mut mem[..]);
    check(!cpu.regs.sr.z, "bit 10 % 8 = 2 is set");
}'''),

dict(id="c07_asl_overflow_ends_only", property="C07",
  edits=[(I, """                let sign = data & mask;
                data <<= 1;
                self.regs.sr.x = sign != 0;
                self.regs.sr.c = sign != 0;
                if sign ^ data & mask != 0 {
                    self.regs.sr.v = true;
                }
            }
        } else {
            let sign = data & mask;
            for""", """                let sign = data & mask;
                data <<= 1;
                self.regs.sr.x = sign != 0;
                self.regs.sr.c = sign != 0;
                self.regs.sr.v = first ^ data & mask != 0;
            }
        } else {
            let sign = data & mask;
            for"""), (I, """        if dir == Direction::Left {
            for _ in 0..shift_count {
                let sign = data & mask;
                data <<= 1;
                self.regs.sr.x = sign != 0;
                self.regs.sr.c = sign != 0;
                self.regs""", """        let first = data & mask;
        if dir == Direction::Left {
            for _ in 0..shift_count {
                let sign = data & mask;
                data <<= 1;
                self.regs.sr.x = sign != 0;
                self.regs.sr.c = sign != 0;
                self.regs""")],
  needs="ASL by at least 2 whose sign changes and comes back",
  breaks="V of ASL compares the first and last sign bits and misses a sign that changed in between.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xE501]); // ASL.B #2, D1
    cpu.regs.d[1].0 = 0x40;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.sr.v, "0x40 -> 0x80 -> 0 overflows");
}'''),

dict(id="c07_roxr_long_count_modulo", property="C07",
  edits=[(I, """        self.regs.sr.v = false;
        self.regs.sr.c = self.regs.sr.x;

        let shift_count = if ir {
            (self.regs.d[rot as usize].0 % 64) as u8""", """        self.regs.sr.v = false;
        self.regs.sr.c = self.regs.sr.x;

        let shift_count = if ir {
            (self.regs.d[rot as usize].0 % 33) as u8""")],
  needs="ROXL/ROXR with a register count above 32",
  breaks="The register count of ROXd is taken modulo 33 for every size.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xE571]); // ROXL.W D2, D1
    cpu.regs.d[1].0 = 1;
    cpu.regs.d[2].0 = 34; // = 0 modulo 17
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.d[1].0 == 1, "ROXL.W by 34 is a full turn");
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xE571]);
    cpu.regs.d[1].0 = 1;
    cpu.regs.d[2].0 = 35;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.d[1].0 == 2, "ROXL.W by 35");
}'''),

dict(id="c08_pea_after_push", property="C08",
  edits=[(I, """        let addr = self.get_effective_address(&mut ea, &mut exec_time);
        self.push_long(memory, addr)?;

        Ok(match am {
            AddressingMode::Ari(_) => CPU::PEA_ARI,""", """        let sp = self.ariwpr(7, Size::Long).even()?;
        let addr = self.get_effective_address(&mut ea, &mut exec_time);
        memory.set_long(sp, addr).ok_or(ACCESS_ERROR)?;

        Ok(match am {
            AddressingMode::Ari(_) => CPU::PEA_ARI,""")],
  needs="PEA whose effective address uses A7 (base or index)",
  breaks="PEA evaluates its operand after the stack pointer moved: PEA (d,A7) pushes an address 4 too low.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x486F, 0x0010]); // PEA (16, A7)
    cpu.interpreter_exception(&mut mem[..]);
    check(long(&mem, 0x7FFC) == 0x8010, "address pushed by PEA (16, A7)");
}'''),

dict(id="c08_movep_low_address_wraps", property="C08",
  edits=[(I, "let mut addr = Wrapping(self.regs.a(addr).wrapping_add(disp as u32));", "let mut addr = Wrapping(self.regs.a(addr).wrapping_add(disp as u16 as u32));")],
  needs="MOVEP with a negative displacement",
  breaks="The displacement of MOVEP is zero-extended.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x0389, 0xFFFE]); // MOVEP.W D1, (-2, A1)
    cpu.regs.d[1].0 = 0xABCD;
    cpu.regs.a[1].0 = 0x3002;
    cpu.interpreter_exception(&mut mem[..]);
    check(mem[0x3000] == 0xAB && mem[0x3002] == 0xCD, "MOVEP with a negative displacement");
}'''),

dict(id="c08_unlk_a7", property="C08",
  edits=[(I, """        self.regs.sp_mut().0 = self.regs.a(reg);
        self.regs.a_mut(reg).0 = self.pop_long(memory)?;
""", """        self.regs.sp_mut().0 = self.regs.a(reg);
        let value = memory.get_long(self.regs.sp().even()?).ok_or(ACCESS_ERROR)?;
        self.regs.a_mut(reg).0 = value;
        *self.regs.sp_mut() += 4;
""")],
  needs="UNLK A7",
  breaks="UNLK A7 adds 4 to the value it has just loaded into the stack pointer.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E5F]);
    put(&mut mem, 0x8000, &[0, 0x6000]);
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.ssp.0 == 0x6000, "UNLK A7");
}'''),

dict(id="c09_move_destination_first", property="C09",
  edits=[(I, """        let mut src = EffectiveAddress::new(amsrc, Some(size));
        let mut dst = EffectiveAddress::new(amdst, Some(size));

        match size {""", """        let mut src = EffectiveAddress::new(amsrc, Some(size));
        let mut dst = EffectiveAddress::new(amdst, Some(size));
        if matches!(amdst, AddressingMode::Ariwd(..) | AddressingMode::Ariwi8(..)) {
            self.get_effective_address(&mut dst, &mut exec_time);
        }

        match size {""")],
  needs="MOVE whose source postincrements or predecrements the register the destination is based on",
  breaks="The destination address d(An) of MOVE is computed before the source changed An.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x3359, 0x0010]); // MOVE.W (A1)+, (16, A1)
    cpu.regs.a[1].0 = 0x3000;
    put(&mut mem, 0x3000, &[0x1234]);
    cpu.interpreter_exception(&mut mem[..]);
    check(word(&mem, 0x3012) == 0x1234, "the destination uses the incremented register");
}'''),

dict(id="c09_index_stack_pointer", property="C09",
  edits=[(A, """            if long {
                self.regs.a(reg)
            } else { // Word""", """            if long {
                if reg < 7 { self.regs.a[reg as usize].0 } else { self.regs.ssp.0 }
            } else { // Word""")],
  needs="an A7.L index register in user mode",
  breaks="A long A7 index always reads the supervisor stack pointer.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x43F0, 0xF800]); // LEA (0, A0, A7.L), A1
    cpu.regs.sr = 0u16.into();
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.a[1].0 == 0x7000, "A7 is the user stack pointer in user mode");
}'''),

dict(id="c10_dbcc_signed_counter", property="C10",
  edits=[(I, "if counter != -1 {", "if counter >= 0 {")],
  needs="DBcc with a counter above 0x8000",
  breaks="DBcc stops looping when the counter is negative as a signed number.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x51C9, 0x0100]); // DBF D1, +256
    cpu.regs.d[1].0 = 0x9000;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.pc.0 == CODE + 2 + 0x100, "0x8FFF is not -1: branch");
}'''),

dict(id="c11_orisr_ccr_only_unprivileged", property="C11",
  edits=[(I, """        self.check_supervisor()?;

        self.regs.sr |= imm;""", """        if imm & SR_UPPER_MASK != 0 {
            self.check_supervisor()?;
        }

        self.regs.sr |= imm;""")],
  needs="ORI #imm,SR in user mode with no bit of the system byte set in the immediate",
  breaks="ORI to SR is not a privilege violation when it only touches the condition codes.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x007C, 0x0010]);
    cpu.regs.sr = 0u16.into();
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(8), "privilege violation");
    check(u16::from(cpu.regs.sr) == 0, "SR unchanged");
}'''),

dict(id="c12_spurious_lowers_mask", property="C12",
  edits=[(E, "        if is_interrupt(vector) {\n            self.regs.sr.interrupt_mask = vector & 7;", "        if is_interrupt(vector) || vector == Vector::SpuriousInterrupt as u8 {\n            self.regs.sr.interrupt_mask = vector & 7;")],
  needs="a spurious interrupt (requested, or because the entry of an interrupt met a bus error)",
  breaks="The spurious interrupt sets the interrupt mask to 0.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71]);
    cpu.regs.sr = 0x2300u16.into();
    cpu.exception(Exception::from(Vector::SpuriousInterrupt));
    cpu.interpreter_exception(&mut mem[..]);
    check(u16::from(cpu.regs.sr) == 0x2300, "mask kept by a spurious interrupt");
}'''),

dict(id="c13_level7_onchip_masked", property="C13",
  edits=[(E, "vector >= Vector::Level1OnChipInterrupt as u8 && vector <= Vector::Level7OnChipInterrupt as u8", "vector >= Vector::Level1OnChipInterrupt as u8 && vector < Vector::Level7OnChipInterrupt as u8")],
  needs="an on-chip level 7 interrupt",
  breaks="Vector 63 is not an interrupt any more: it does not raise the interrupt mask.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Scc68070>(&[0x4E71]);
    cpu.regs.sr = 0x2300u16.into();
    cpu.exception(Exception::from(Vector::Level7OnChipInterrupt));
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.sr.interrupt_mask == 7, "mask raised to 7");
}'''),

dict(id="c13_pending_mask_after_first", property="C13",
  edits=[(E, """            total += match self.process_exception(memory, exception.vector) {""", """            if exception.is_interrupt() && exception.vector & 7 <= self.regs.sr.interrupt_mask && exception.vector & 7 != 7 {
                continue; // Masked by an interrupt accepted before.
            }

            total += match self.process_exception(memory, exception.vector) {""")],
  needs="two interrupts of the same level pending at once (external and on-chip)",
  breaks="The second of two interrupts accepted together is forgotten: it was already removed from the pending set.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Scc68070>(&[0x4E71]);
    cpu.regs.sr = 0x2000u16.into();
    cpu.exception(Exception::from(Vector::Level3Interrupt));
    cpu.exception(Exception::from(Vector::Level3OnChipInterrupt));
    let mut frames = 0;
    for _ in 0..3 {
        cpu.interpreter_exception(&mut mem[..]);
        cpu.regs.sr.interrupt_mask = 0;
        frames = (0x8000 - cpu.regs.ssp.0) / 8;
    }
    check(frames == 2, "both interrupts are taken");
}'''),

dict(id="c14_rtr_not_traced", property="C14",
  edits=[("m68000/src/isa.rs", "matches!(self, Andisr | Eorisr | Movesr | Moveusp | Orisr | Reset | Rte | Stop)", "matches!(self, Andisr | Eorisr | Movesr | Moveusp | Orisr | Reset | Rte | Rtr | Stop)")],
  needs="RTR executed with T set",
  breaks="RTR is not traced.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E77]);
    put(&mut mem, 0x8000, &[0, 0, 0x2000]);
    cpu.regs.sr = 0xA000u16.into();
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(9), "RTR is traced");
}'''),

dict(id="c15_movem_predec_odd", property="C15",
  edits=[(I, "let mut addr = self.regs.a(eareg).even()?; // Gap is always 2 or 4 so check for even() only once.", "let mut addr = self.regs.a(eareg); // Gap is always 2 or 4.\n            if size.is_long() { addr.even()?; }")],
  needs="MOVEM.W to -(An) with an odd An",
  breaks="MOVEM.W predecrement writes words at odd addresses instead of raising address error.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x48A1, 0x8000]); // MOVEM.W D0, -(A1)
    cpu.regs.a[1].0 = 0x3001;
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(3), "address error");
}'''),

dict(id="c15_addx_long_odd_destination", property="C15",
  edits=[(I, """                    (memory.get_long(src_addr.even()?).ok_or(ACCESS_ERROR)?, memory.get_long(dst_addr.even()?).ok_or(ACCESS_ERROR)?)
                } else {
                    (self.regs.d[ry as usize].0, self.regs.d[rx as usize].0)
                };

                let res = self.add""", """                    (memory.get_long(src_addr.even()?).ok_or(ACCESS_ERROR)?, memory.get_long(dst_addr).ok_or(ACCESS_ERROR)?)
                } else {
                    (self.regs.d[ry as usize].0, self.regs.d[rx as usize].0)
                };

                let res = self.add""")],
  needs="ADDX.L -(Ay),-(Ax) with an odd Ax and an even Ay",
  breaks="ADDX.L reads and writes its destination at an odd address.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xD38A]); // ADDX.L -(A2), -(A1)
    cpu.regs.a[1].0 = 0x3005;
    cpu.regs.a[2].0 = 0x3104;
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(3), "address error");
}'''),

dict(id="c16_scc_level_interrupt_onchip_time", property="C16",
  edits=[("m68000/src/cpu_details/scc68070.rs", "32..=47 => 52, // Trap", "32..=46 => 52, // Trap")],
  needs="TRAP #15 on the SCC68070",
  breaks="TRAP #15 is charged the reset time on the SCC68070.",
  demo=r'''
fn main() {
    for t in 0..16u16 {
        let (mut cpu, mut mem) = setup::<Scc68070>(&[0x4E40 | t]);
        cpu.interpreter(&mut mem[..]);
        check(cpu.interpreter(&mut mem[..]) == 52 + Scc68070::NOP, "TRAP time");
    }
}'''),

dict(id="c16_movem_word_count", property="C16",
  edits=[(I, "let count = list.count_ones() as usize;", "let count = (list as u8).count_ones() as usize + ((list >> 8) as u8 & 0x7F).count_ones() as usize + (list >> 15 != 0 && am.is_ariwpr()) as usize;")],
  needs="MOVEM with A7 in the list, in another mode than predecrement",
  breaks="A7 is not counted in the execution time of MOVEM.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x48D1, 0x8001]); // MOVEM.L D0/A7, (A1)
    cpu.regs.a[1].0 = 0x3000;
    check(cpu.interpreter(&mut mem[..]) == 8 + 16, "MOVEM time");
}'''),

dict(id="c17_loop_drops_stop_time", property="C17",
  edits=[(F, """            let (cycles, vector) = self.interpreter_exception(memory);
            total_cycles += cycles;

            if vector.is_some() || self.stop {
                return (total_cycles, vector);
            }""", """            let (cycles, vector) = self.interpreter_exception(memory);

            if vector.is_some() || self.stop {
                return (total_cycles, vector);
            }

            total_cycles += cycles;""")],
  needs="loop_until_exception_stop ending on an exception or STOP that took time",
  breaks="The time of the last step is lost.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71, 0x4E72, 0x2000]); // NOP; STOP
    let (c, v) = cpu.loop_until_exception_stop(&mut mem[..]);
    check(v.is_none() && c == 4 + 4, "cycles of NOP and STOP");
}'''),

dict(id="c17_until_exception_ignores_carried", property="C17",
  edits=[(F, """            let (c, v) = self.interpreter_exception(memory);
            total += c;

            if v.is_some() || self.stop {
                return (total, v);
            }
        }

        (total, None)""", """            let (c, v) = self.interpreter_exception(memory);
            total += c;

            if v.is_some() && total < cycles || self.stop {
                return (total, v);
            }
        }

        (total, None)""")],
  needs="cycle_until_exception where the instruction that raises the exception also exhausts the budget",
  breaks="The exception raised by the last instruction of the budget is not reported, and lost.",
  demo=r'''
fn main() {
    for (code, vec) in [(0x4E71u16, 9u8)] {
        let (mut cpu, mut mem) = setup::<Mc68000>(&[code]);
        cpu.regs.sr = 0xA000u16.into();
        let (c, v) = cpu.cycle_until_exception(&mut mem[..], 2);
        check(c == 4 && v == Some(vec), "trace reported with the last cycles");
    }
}'''),

dict(id="c18_bra_pc_of_next", property="C18",
  edits=[(D, "if trace && !isa.is_privileged() {", "if trace && !isa.is_privileged() && !matches!(isa, Isa::Trapv) {")],
  needs="TRAPV with V clear, executed with T set through the disassembling interpreter",
  breaks="The disassembling interpreter does not trace TRAPV.",
  demo=r'''
fn main() {
    let (mut a, mut mem) = setup::<Mc68000>(&[0x4E76]);
    a.regs.sr = 0xA000u16.into();
    let mut b = a.clone();
    let (_, v) = a.interpreter_exception(&mut mem[..]);
    let (_, _, _, w) = b.disassembler_interpreter_exception(&mut mem[..]);
    check(v == w, "both front ends trace TRAPV");
}'''),

dict(id="c19_rte_long_frame_24", property="C19",
  edits=[(I, "*self.regs.sp_mut() += 26;", "*self.regs.sp_mut() += 24;")],
  needs="RTE from a bus or address error on the SCC68070",
  breaks="RTE leaves one word of the long frame on the stack.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Scc68070>(&[0x4E71]);
    put(&mut mem, 0x4000 + 16 * 3, &[0x4E73]);
    cpu.exception(Exception::from(Vector::AddressError));
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.ssp.0 == 0x8000, "RTE removes the whole frame");
}'''),

dict(id="c20_bra_minus_128", property="C20",
  edits=[(X, "if disp < i8::MIN as i16 || disp > i8::MAX as i16 || disp == 0 {", "if disp.abs() > 128 || disp == 0 {")],
  needs="a branch displacement of exactly 128",
  breaks="The assembler encodes the displacement 128 in a byte, where it means -128.",
  demo=r'''
fn main() {
    check(m68000::assembler::bra(128) == [0x6000, 128], "BRA 128 needs a word");
    check(m68000::assembler::bra(-128) == [0x6080], "BRA -128 fits a byte");
}'''),

dict(id="c22_index_displacement_unsigned", property="C22",
  edits=[(A, "AddressingMode::Pciwi8(_, bew) => write!(f, \"({}, PC, {bew})\", bew.disp()),", "AddressingMode::Pciwi8(_, bew) => write!(f, \"({}, PC, {bew})\", bew.0 as u8),")],
  needs="the text of a PC-relative indexed operand with a negative displacement",
  breaks="The displacement is printed as an unsigned number: (-1, PC, D0.W) reads (255, PC, D0.W).",
  demo=r'''
fn main() {
    let (_, mut mem) = setup::<Mc68000>(&[0x43FB, 0x10FF]); // LEA (-1, PC, D1.W), A1
    let mut it = mem[..].iter_u16(CODE);
    let t = Instruction::from_memory(&mut it).unwrap().disassemble();
    check(t.contains("-1"), "displacement -1 in the text");
}'''),

dict(id="c23_set_long_order", property="C23",
  edits=[(M, """        self.set_word(addr, (value >> 16) as u16)?;
        self.set_word(addr.wrapping_add(2), value as u16)""", """        self.set_word(addr, (value >> 16) as u16)?;
        self.set_word(addr | 2, value as u16)""")],
  needs="a long write at an address that is 2 modulo 4",
  breaks="The default set_long writes the low word over the high word when the address is not a multiple of 4.",
  demo=r'''
fn main() {
    let mut mem = vec![0u8; 16];
    mem[..].set_long(2, 0x12345678).unwrap();
    check(mem[2..6] == [0x12, 0x34, 0x56, 0x78], "set_long at 2");
}'''),

dict(id="c24_signed_borrow_either", property="C24",
  edits=[("m68000/src/utils.rs", """                let (a, b) = self.overflowing_sub(rhs);
                let (c, d) = a.overflowing_sub(borrow as $t);
                (c, b != d)""", """                let (a, b) = self.overflowing_sub(rhs);
                let (c, d) = a.overflowing_sub(borrow as $t);
                (c, b || d)""")],
  needs="a signed subtraction that overflows, with a borrow that brings the result back in range (0x7FFFFFFF - -1 - 1)",
  breaks="borrowingsub reports an overflow when the subtraction and the borrow overflow in opposite directions.",
  demo=r'''
fn main() {
    use m68000::utils::CarryingOps;
    check(127i8.borrowingsub(-1, true) == (127, false), "127 - -1 - 1 fits");
}'''),

dict(id="c25_get_next_long_word", property="C25", ffi=True,
  edits=[("m68000-ffi/src/lib.rs", """        let res = (self.set_byte)(addr, value, self.user_data);
        if res.exception == 0 {""", """        let res = (self.set_byte)(addr, value, self.user_data);
        if res.exception != 3 {""")],
  needs="a set_byte callback that refuses the write",
  breaks="A byte write refused by the callback does not raise access error.",
  demo=r'''
use m68000_ffi::mc68000::*;
use m68000_ffi::*;
use std::ffi::c_void;
fn ok(data: u32) -> m68000_memory_result_t { m68000_memory_result_t { data, exception: 0 } }
fn no() -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 2 } }
extern "C" fn get(_: u32, _: *mut c_void) -> m68000_memory_result_t { ok(0x4210) } // CLR.B (A0)
extern "C" fn sb(_: u32, _: u8, _: *mut c_void) -> m68000_memory_result_t { no() }
extern "C" fn sw(_: u32, _: u16, _: *mut c_void) -> m68000_memory_result_t { no() }
extern "C" fn sl(_: u32, _: u32, _: *mut c_void) -> m68000_memory_result_t { no() }
extern "C" fn rst(_: *mut c_void) {}
fn main() {
    let mut cb = m68000_callbacks_t { get_byte: get, get_word: get, get_long: get, set_byte: sb, set_word: sw, set_long: sl,
        reset_instruction: rst, user_data: std::ptr::null_mut() };
    unsafe {
        let core = m68000_mc68000_new_no_reset();
        let r = m68000_mc68000_interpreter_exception(core, &mut cb);
        check(r.exception == 2, "access error reported");
        m68000_mc68000_delete(core);
    }
}'''),

dict(id="c26_reset_keeps_trace", property="C26",
  edits=[(E, "        self.regs.sr.t = false;\n        self.regs.sr.s = true;\n        self.regs.sr.interrupt_mask = 7;\n        self.stop = false;", "        self.regs.sr.s = true;\n        self.regs.sr.interrupt_mask = 7;\n        self.stop = false;")],
  needs="a reset while T is set",
  breaks="A reset leaves the trace bit set, so the first instruction after it is traced.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71]);
    put(&mut mem, 0, &[0, 0x8000, 0, 0x1000]);
    cpu.regs.sr = 0x8000u16.into();
    cpu.exception(Exception::from(Vector::ResetSspPc));
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v.is_none() && u16::from(cpu.regs.sr) == 0x2700, "SR after a reset");
}'''),

dict(id="c27_extension_word_memo", property="C27",
  edits=[(N, """/// BRA, BSR
pub fn displacement<""", """/// The last word displacement that was read, with its address and opcode.
static LAST_DISPLACEMENT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);

/// BRA, BSR
pub fn displacement<"""), (N, """    let mut disp = opcode as i8 as i16;
    if disp == 0 {
        disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
    }
    disp
}""", """    use std::sync::atomic::Ordering::Relaxed;
    let mut disp = opcode as i8 as i16;
    if disp == 0 {
        let key = (opcode as u64) << 48 | memory.next_addr as u64;
        let last = LAST_DISPLACEMENT.load(Relaxed);
        if last & 0xFFFF_0000_FFFF_FFFF == key {
            memory.next_addr = memory.next_addr.wrapping_add(2);
            return (last >> 32) as u16 as i16;
        }
        disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
        LAST_DISPLACEMENT.store(key | (disp as u16 as u64) << 32, Relaxed);
    }
    disp
}""")],
  needs="two BRA.W or BSR.W with different displacements decoded at the same address one after the other (two cores, or self-modifying code)",
  breaks="The displacement of the last word branch is remembered process-wide by address: another core or a modified program gets the old one.",
  demo=r'''
fn main() {
    for d in [0x10u16, 0x20] {
        let (mut cpu, mut mem) = setup::<Mc68000>(&[0x6000, d]);
        cpu.interpreter_exception(&mut mem[..]);
        check(cpu.regs.pc.0 == CODE + 2 + d as u32, "BRA.W target");
    }
}'''),
]
