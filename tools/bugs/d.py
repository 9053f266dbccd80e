# Fourth round: long runs, large inputs, wide ranges, state carried between calls.
I = "m68000/src/interpreter.rs"
F = "m68000/src/interpreter_fast.rs"
D = "m68000/src/interpreter_disassembler.rs"
E = "m68000/src/exception.rs"
A = "m68000/src/addressing_modes.rs"
N = "m68000/src/instruction.rs"
X = "m68000/src/assembler.rs"
S = "m68000/src/disassembler.rs"
M = "m68000/src/memory_access.rs"
R = "m68000/src/status_register.rs"
L = "m68000/src/lib.rs"
U = "m68000/src/utils.rs"
FL = "m68000-ffi/src/lib.rs"
BINS = [("disassemble", "m68000/src/bin/disassemble.rs")]
RUNDIR = r'''
use std::path::PathBuf;
use std::process::{Command, Stdio};

/// The folder of this executable, where the programs of the project are built too, and where files may be written.
fn dir() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

fn setup() {}

fn check(ok: bool, what: &str) {
    if !ok {
        println!("WRONG: {what}");
        std::process::exit(1);
    }
}
'''

TST = """                let data = self.get_long(memory, &mut ea, &mut exec_time)?;
                self.regs.sr.n = data & SIGN_BIT_32 != 0;
                self.regs.sr.z = data == 0;
            },
        }

        self.regs.sr.v = false;
        self.regs.sr.c = false;

        Ok(exec_time)
    }

    pub(super) fn execute_unlk"""

BUGS = [
dict(id="c17_budget_32_bits", property="C17",
  edits=[(F, """    pub fn cycle_until_exception<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, cycles: usize) -> (usize, Option<u8>) {
        let mut total = 0;

        while total < cycles {""", """    pub fn cycle_until_exception<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, cycles: usize) -> (usize, Option<u8>) {
        let mut total = 0;

        while total < cycles as u32 as usize {""")],
  needs="a budget of 2^32 cycles or more",
  breaks="cycle_until_exception uses only the low 32 bits of its budget.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71, 0x4E71, 0x4E43]); // NOP, NOP, TRAP #3
    let r = cpu.cycle_until_exception(&mut mem[..], 1 << 32);
    check(r.1 == Some(35) && r.0 >= 8, "returns at the TRAP");
}'''),

dict(id="c17_loop_gives_up", property="C17",
  edits=[(F, """        let mut total_cycles = 0;

        loop {
            let (cycles, vector) = self.interpreter_exception(memory);
            total_cycles += cycles;

            if vector.is_some() || self.stop {
                return (total_cycles, vector);
            }
        }""", """        let mut total_cycles = 0;

        for _ in 0..u16::MAX {
            let (cycles, vector) = self.interpreter_exception(memory);
            total_cycles += cycles;

            if vector.is_some() || self.stop {
                return (total_cycles, vector);
            }
        }

        (total_cycles, None)""")],
  needs="more than 65535 instructions before the exception or STOP",
  breaks="loop_until_exception_stop returns without an exception or STOP.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71, 0x51C8, 0xFFFC, 0x4E72, 0x2700]); // NOP, DBF D0, STOP
    cpu.regs.d[0].0 = 39999;
    let (_, v) = cpu.loop_until_exception_stop(&mut mem[..]);
    check(v.is_none() && cpu.stop, "runs until the STOP");
}'''),

dict(id="c17_cycle_16_bit_total", property="C17",
  edits=[(F, """            total += self.interpreter(memory);

            if self.stop {
                return total.max(cycles);
            }
        }

        total
    }""", """            total += self.interpreter(memory);

            if self.stop && total > u16::MAX as usize {
                return total;
            }
            if self.stop {
                return total.max(cycles);
            }
        }

        total
    }""")],
  needs="a STOP after more than 65535 cycles of one run",
  breaks="cycle returns less than what was asked.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71, 0x51C8, 0xFFFC, 0x4E72, 0x2700]); // NOP, DBF D0, STOP
    cpu.regs.d[0].0 = 9999;
    check(cpu.cycle(&mut mem[..], 10_000_000) == 10_000_000, "at least the cycles asked for");
}'''),

dict(id="c23_byte_slice_24_bits", property="C23",
  edits=[(M, """impl MemoryAccess for [u8] {
    fn get_byte(&mut self, addr: u32) -> Option<u8> {
        let addr = addr as usize;
        if addr""", """impl MemoryAccess for [u8] {
    fn get_byte(&mut self, addr: u32) -> Option<u8> {
        let addr = addr as usize & 0xFF_FFFF;
        if addr""")],
  needs="a byte read behind 16 MiB whose low 24 bits lie inside the slice",
  breaks="Reads far behind the end of a byte slice return its bytes.",
  demo=r'''
fn main() {
    let mut mem = vec![7u8; 64];
    check(mem[..].get_byte(0x0300_0010).is_none(), "byte at 0x3000010 of 64");
}'''),

dict(id="c23_word_slice_128k", property="C23",
  edits=[(M, """    fn set_byte(&mut self, addr: u32, data: u8) -> Option<()> {
        let a = addr as usize >> 1;
""", """    fn set_byte(&mut self, addr: u32, data: u8) -> Option<()> {
        let a = (addr >> 1) as u16 as usize;
""")],
  needs="a byte written behind the first 128 KiB of a slice of words",
  breaks="Byte writes to a large slice of words wrap at 128 KiB.",
  demo=r'''
fn main() {
    let mut mem = vec![0u16; 0x20000];
    check(mem[..].set_byte(0x2_0001, 0x5A).is_some(), "in range");
    check(mem[0] == 0 && mem[0x1_0000] == 0x5A, "byte 0x20001");
}'''),

dict(id="c13_pending_limit", property="C13",
  edits=[(E, "        self.exceptions.insert(ex);\n", """        if self.exceptions.len() < 16 {
            self.exceptions.insert(ex);
        }
""")],
  needs="more than 16 exceptions pending at once",
  breaks="The 17th pending exception is lost.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71; 64]);
    for v in 0..20u32 {
        put(&mut mem, 0x4000 + 16 * (64 + v), &[0x5238, 0x3000 + v as u16, 0x4E73]); // ADDQ.B #1, (0x3000+v).W ; RTE
    }
    for v in 0..20u8 { cpu.exception(Exception::from(64 + v)); }
    for _ in 0..50 { cpu.interpreter(&mut mem[..]); }
    check(mem[0x3000..0x3014].iter().all(|c| *c == 1), "each of the 20 handlers runs once");
}'''),

dict(id="c13_masked_expires", property="C13",
  edits=[(L, """    /// The details of the emulated CPU.
    _cpu: CPU,
}""", """    /// The number of times the pending exceptions were looked at.
    looks: u16,
    /// The details of the emulated CPU.
    _cpu: CPU,
}"""), (L, """            exceptions: BTreeSet::new(),
""", """            exceptions: BTreeSet::new(),
            looks: 0,
"""), (E, """        for ex in &self.exceptions {
            if ex.is_interrupt() {""", """        self.looks = self.looks.wrapping_add(1);
        if self.looks == 1000 {
            // Nothing is left to wait for.
            let mask = self.regs.sr.interrupt_mask;
            self.exceptions.retain(|ex| !ex.is_interrupt() || ex.vector & 0x7 > mask || ex.vector & 0x7 == 7);
        }

        for ex in &self.exceptions {
            if ex.is_interrupt() {""")],
  needs="an interrupt that stays masked for 1000 steps",
  breaks="The masked interrupt is forgotten.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x60FE]); // BRA self
    cpu.exception(Exception::from(Vector::Level3Interrupt));
    for _ in 0..1500 { cpu.interpreter(&mut mem[..]); }
    check(cpu.regs.pc.0 == CODE, "masked");
    cpu.regs.sr.interrupt_mask = 0;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.pc.0 == 0x4000 + 16 * 27 + 2, "taken once unmasked");
}'''),

dict(id="c14_stop_ends_by_itself", property="C14",
  edits=[(L, """    /// The details of the emulated CPU.
    _cpu: CPU,
}""", """    /// The number of steps spent stopped.
    idle: u8,
    /// The details of the emulated CPU.
    _cpu: CPU,
}"""), (L, """            exceptions: BTreeSet::new(),
""", """            exceptions: BTreeSet::new(),
            idle: 0,
"""), (F, """        if self.stop {
            return (0, None);
        }
""", """        if self.stop {
            self.idle = self.idle.wrapping_add(1);
            if self.idle == u8::MAX {
                self.stop = false;
            }
            return (0, None);
        }
""")],
  needs="255 steps while stopped",
  breaks="The processor leaves the stopped state by itself.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E72, 0x2700, 0x7001, 0x60FE]); // STOP, MOVEQ #1, D0
    for _ in 0..600 { cpu.interpreter(&mut mem[..]); }
    check(cpu.stop && cpu.regs.d[0].0 == 0, "still stopped");
}'''),

dict(id="c19_prefetched_opcode", property="C19",
  edits=[(L, """    /// The details of the emulated CPU.
    _cpu: CPU,
}""", """    /// The address and value of the word behind the last instruction.
    ahead: Option<(u32, u16)>,
    /// The details of the emulated CPU.
    _cpu: CPU,
}"""), (L, """            exceptions: BTreeSet::new(),
""", """            exceptions: BTreeSet::new(),
            ahead: None,
"""), (F, """        let opcode = match self.get_next_word(memory) {
            Ok(op) => op,
            Err(e) => return (cycle_count, Some(e)),
        };
""", """        let opcode = match self.get_next_word(memory) {
            Ok(op) => match self.ahead.take() {
                Some((addr, word)) if addr == pc.0 && op >> 12 == word >> 12 => word,
                _ => op,
            },
            Err(e) => return (cycle_count, Some(e)),
        };
        if opcode >> 12 == 7 {
            self.ahead = self.peek_next_word(memory).ok().map(|word| (self.regs.pc.0, word));
        }
""")],
  needs="a MOVEQ followed by an instruction that the host replaces by one of the same group before it executes",
  breaks="The instruction that was there before executes.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x7001, 0x7402, 0x4E71]); // MOVEQ #1, D0 ; MOVEQ #2, D2
    cpu.interpreter(&mut mem[..]);
    put(&mut mem, CODE + 2, &[0x7603]); // MOVEQ #3, D3
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.d[3].0 == 3 && cpu.regs.d[2].0 == 0, "the new instruction executes");
}'''),

dict(id="c12_scc_address_error_opcode", property="C12",
  edits=[(E, "                    self.push_word(memory, self.current_opcode)?; // IR\n", "                    self.push_word(memory, if vector == 3 { 0 } else { self.current_opcode })?; // IR\n")],
  needs="an address error on the SCC68070",
  breaks="The instruction register field of the long frame is zero.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Scc68070>(&[0x3038, 0x0001, 0x4E71]); // MOVE.W (1).W, D0
    cpu.interpreter(&mut mem[..]);
    cpu.interpreter(&mut mem[..]);
    let f = 0x8000 - 34;
    check(mem[f + 34 - 4] == 0x30 && mem[f + 34 - 3] == 0x38, "IRC");
    check(mem[f + 34 - 6] == 0x30 && mem[f + 34 - 5] == 0x38, "IR");
}'''),

dict(id="c15_odd_handler_rounded", property="C15",
  edits=[(E, "        self.regs.pc.0 = memory.get_long(vector as u32 * 4).ok_or(ACCESS_ERROR)?;\n", "        self.regs.pc.0 = memory.get_long(vector as u32 * 4).ok_or(ACCESS_ERROR)? & !1;\n")],
  needs="an exception vector that holds an odd address",
  breaks="The handler runs at the even address instead of an address error.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E43]); // TRAP #3
    put(&mut mem, 35 * 4, &[0, 0x5001]);
    put(&mut mem, 0x5000, &[0x4E71]);
    cpu.interpreter(&mut mem[..]);
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(3), "address error");
}'''),

dict(id="c18_refused_fetch_loses_cycles", property="C18",
  edits=[(D, '            Err(e) => return (0, String::from(""), cycle_count, Some(e)),\n', '            Err(e) => return (0, String::from(""), 0, Some(e)),\n')],
  needs="an exception whose handler cannot be fetched, in the disassembling interpreter",
  breaks="The cycles of the exception processing are not returned.",
  demo=r'''
fn main() {
    let (cpu, mut mem) = setup::<Mc68000>(&[0x4E71]);
    put(&mut mem, 35 * 4, &[0x0070, 0x0000]);
    let (mut a, mut b) = (cpu.clone(), cpu);
    a.exception(Exception::from(35));
    b.exception(Exception::from(35));
    let mut m = mem.clone();
    let x = a.interpreter_exception(&mut m[..]);
    let y = b.disassembler_interpreter_exception(&mut mem[..]);
    check(x == (y.2, y.3), "cycles and vector");
}'''),

dict(id="c11_move_to_ccr_word", property="C11",
  edits=[(I, "        self.regs.sr.set_ccr(ccr);\n", """        self.regs.sr.set_ccr(ccr);
        if ccr >> 13 == 0b111 {
            self.regs.sr.interrupt_mask = (ccr >> 8 & 7) as u8;
        }
""")],
  needs="MOVE to CCR in user mode with bits 15 to 13 of the source set",
  breaks="A user program changes the interrupt mask.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x44FC, 0xE01F]); // MOVE #0xE01F, CCR
    cpu.regs.sr = 0x0300.into();
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.sr.interrupt_mask == 3, "interrupt mask");
}'''),

dict(id="c04_divs_zero_quotient_sign", property="C04",
  edits=[(I, "        self.regs.sr.n = (quot as i16) < 0; // Undefined on overflow.\n        self.regs.sr.z = quot as i16 == 0; // Undefined on overflow.\n        self.regs.sr.v = quot < i16::MIN", "        self.regs.sr.n = (quot as i16) < 0 || quot == 0 && rem == -1; // Undefined on overflow.\n        self.regs.sr.z = quot as i16 == 0; // Undefined on overflow.\n        self.regs.sr.v = quot < i16::MIN")],
  needs="DIVS of -1 by something larger",
  breaks="N is set although the quotient is zero.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x83FC, 0x0007]); // DIVS #7, D1
    cpu.regs.d[1].0 = 0xFFFF_FFFF;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.d[1].0 == 0xFFFF_0000, "quotient and remainder");
    check(!cpu.regs.sr.n && cpu.regs.sr.z, "flags");
}'''),

dict(id="c09_bcd_stack_pointer_step", property="C09",
  edits=[(A, """        let areg = self.regs.a_mut(reg);
        *areg -= if reg == 7 { size.as_word_long() } else { size } as u32;
        areg.0""", """        let bcd = self.current_opcode & 0xB1F8 == 0x8108;
        let areg = self.regs.a_mut(reg);
        *areg -= if reg == 7 && !bcd { size.as_word_long() } else { size } as u32;
        areg.0""")],
  needs="ABCD or SBCD with the stack pointer predecremented",
  breaks="The stack pointer is decremented by one.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xC30F]); // ABCD -(A7), -(A1)
    cpu.regs.a[1].0 = 0x6000;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.ssp.0 == 0x7FFE && cpu.regs.a[1].0 == 0x5FFF, "address registers");
}'''),

dict(id="c03_borrow_overflow_twice", property="C03",
  edits=[(U, """            fn borrowingsub(self, rhs: Self, borrow: bool) -> (Self, bool) {
                let (a, b) = self.overflowing_sub(rhs);
                let (c, d) = a.overflowing_sub(borrow as $t);
                (c, b != d)
            }""", """            fn borrowingsub(self, rhs: Self, borrow: bool) -> (Self, bool) {
                let (a, b) = self.overflowing_sub(rhs);
                let (c, d) = a.overflowing_sub(borrow as $t);
                (c, b || d)
            }""")],
  needs="SUBX with X set where both partial differences overflow (a - b wraps to the minimum's other side)",
  breaks="V is set although the exact difference fits.",
  demo=r'''
fn main() {
    // SUBX.B D1, D0: 127 - (-1) - 1 = 127
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x9101]);
    cpu.regs.d[0].0 = 0x7F;
    cpu.regs.d[1].0 = 0xFF;
    cpu.regs.sr.x = true;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.d[0].0 == 0x7F && !cpu.regs.sr.v, "127 - (-1) - 1 does not overflow");
}'''),

dict(id="c08_movep_long_high_addresses", property="C08",
  edits=[(I, """                self.regs.d[data as usize] |= d << shift;
                shift -= 8;
                addr += 2;""", """                self.regs.d[data as usize] |= d << shift;
                shift -= 8;
                addr += if addr.0 == 0xFFFF_FFFE { 3 } else { 2 };""")],
  needs="MOVEP from memory that wraps around the end of the address space at an even address",
  breaks="The byte at address 1 is read instead of the one at address 0.",
  demo=r'''
struct Wide(std::collections::HashMap<u32, u8>);
impl MemoryAccess for Wide {
    fn get_byte(&mut self, a: u32) -> Option<u8> { Some(*self.0.get(&a).unwrap_or(&0)) }
    fn get_word(&mut self, a: u32) -> Option<u16> { Some((self.get_byte(a)? as u16) << 8 | self.get_byte(a.wrapping_add(1))? as u16) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.0.insert(a, v); Some(()) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.set_byte(a, (v >> 8) as u8)?; self.set_byte(a.wrapping_add(1), v as u8) }
    fn reset_instruction(&mut self) {}
}

fn main() {
    let (mut cpu, _) = setup::<Mc68000>(&[]);
    let mut mem = Wide(Default::default());
    mem.set_word(CODE, 0x0348); // MOVEP.L (0, A0), D1
    mem.set_byte(0xFFFF_FFFE, 0x11);
    mem.set_byte(0, 0x22);
    mem.set_byte(1, 0x99);
    mem.set_byte(2, 0x33);
    mem.set_byte(4, 0x44);
    cpu.regs.a[0].0 = 0xFFFF_FFFE;
    cpu.interpreter(&mut mem);
    check(cpu.regs.d[1].0 == 0x1122_3344, "bytes read");
}'''),

dict(id="c07_roxr_x_after_zero_count", property="C07",
  edits=[(I, """        self.regs.sr.v = false;
        self.regs.sr.c = self.regs.sr.x;

        let shift_count = if ir {
            (self.regs.d[rot as usize].0 % 64) as u8""", """        self.regs.sr.v = false;
        self.regs.sr.c = self.regs.sr.x && (!ir || self.regs.d[rot as usize].0 != 64);

        let shift_count = if ir {
            (self.regs.d[rot as usize].0 % 64) as u8""")],
  needs="ROXL or ROXR by a register that holds exactly 64, with X set",
  breaks="C is cleared instead of being a copy of X.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xE170]); // ROXL.W D0, D0
    let (mut b, _) = setup::<Mc68000>(&[]);
    put(&mut mem, CODE, &[0xE370]); // ROXL.W D1, D0
    cpu.regs.d[1].0 = 64;
    cpu.regs.sr.x = true;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.sr.c, "C after a rotation by 64");
    b.regs.sr.x = true;
    b.interpreter(&mut mem[..]);
    check(b.regs.sr.c, "C after a rotation by 0");
}'''),

dict(id="c16_chk_time_of_memory_bound", property="C16",
  edits=[(I, "            Ok(CPU::CHK_NO_TRAP + exec_time)\n", "            Ok(CPU::CHK_NO_TRAP + if data == src { 0 } else { exec_time })\n")],
  needs="CHK against a bound in memory that equals the value",
  breaks="The effective address time is not counted.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x41B8, 0x3000, 0x41B8, 0x3002]); // CHK (0x3000).W, D0 ; CHK (0x3002).W, D0
    put(&mut mem, 0x3000, &[5, 6]);
    cpu.regs.d[0].0 = 5;
    let a = cpu.interpreter(&mut mem[..]);
    let b = cpu.interpreter(&mut mem[..]);
    check(a == b, "same time for both");
}'''),

dict(id="c20_dbcc_odd_displacement", property="C20",
  edits=[(X, "    [0b0101 << 12 | (cond as u16) << 8 | 0b1100_1 << 3 | reg as u16 & 7, disp as u16]\n", "    [0b0101 << 12 | (cond as u16) << 8 | 0b1100_1 << 3 | reg as u16 & 7, disp as u16 & if disp < -0x4000 { !1 } else { !0 }]\n")],
  needs="DBcc with an odd displacement below -16384",
  breaks="The displacement is rounded.",
  demo=r'''
fn main() {
    let w = m68000::assembler::dbcc(m68000::assembler::Condition::PL, 3, -0x6001);
    check(w == [0x5ACB, 0x9FFF], "DBPL D3, -0x6001");
}'''),

dict(id="c22_pc_index_a7", property="C22",
  edits=[(A, """            AddressingMode::Pciwi8(_, bew) => write!(f, "({}, PC, {bew})", bew.disp()),""", """            AddressingMode::Pciwi8(_, bew) => write!(f, "({}, PC, {bew})", bew.disp() as u8),""")],
  needs="a PC-relative indexed operand with a negative displacement",
  breaks="The displacement is printed as a positive number.",
  demo=r'''
fn main() {
    let mem = [0x303Bu16, 0x10FE]; // MOVE.W (-2, PC, D1.W), D0
    let mut m = &mem[..];
    let i = Instruction::from_memory(&mut m.iter_u16(0)).unwrap();
    check(i.disassemble().contains("-2, PC"), "displacement");
}'''),

dict(id="c24_wrapping_odd", property="C24",
  edits=[(U, """impl IsEven for Wrapping<u32> {
    #[inline(always)]
    fn is_even(self) -> bool {
        self.0 & 1 == 0
    }""", """impl IsEven for Wrapping<u32> {
    #[inline(always)]
    fn is_even(self) -> bool {
        self.0 & 1 == 0 || self.0 == u32::MAX
    }""")],
  needs="the address 0xFFFFFFFF",
  breaks="0xFFFFFFFF counts as even.",
  demo=r'''
fn main() {
    use m68000::utils::IsEven;
    check(!Wrapping(u32::MAX).is_even(), "0xFFFFFFFF is odd");
}'''),

dict(id="c25_long_text_cut", property="C25", ffi=True,
  edits=[(FL, """                    let (pc, dis, cycles, vector) = (*m68000).disassembler_interpreter_exception(&mut *memory);

                    let cstring = CString""", """                    let (pc, mut dis, cycles, vector) = (*m68000).disassembler_interpreter_exception(&mut *memory);
                    dis.truncate(31);

                    let cstring = CString""")],
  needs="an instruction whose text is longer than 31 characters",
  breaks="The text is cut although the buffer is long enough.",
  demo=r'''
use m68000_ffi::*;
use std::ffi::c_void;
extern "C" fn gb(a: u32, _: *mut c_void) -> m68000_memory_result_t { gw(a, std::ptr::null_mut()) }
extern "C" fn gw(a: u32, _: *mut c_void) -> m68000_memory_result_t {
    // MOVE.L (0x12345678).L, (0x12345678).L
    let w = match a { 0x1000 => 0x23F9, 0x1002 | 0x1006 => 0x1234, 0x1004 | 0x1008 => 0x5678, _ => 0 };
    m68000_memory_result_t { data: w, exception: 0 }
}
extern "C" fn gl(_: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sb(_: u32, _: u8, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sw(_: u32, _: u16, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sl(_: u32, _: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn ri(_: *mut c_void) {}

fn main() {
    let mut cb = m68000_callbacks_t { get_byte: gb, get_word: gw, get_long: gl, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: ri, user_data: std::ptr::null_mut() };
    let mut buf = [1u8; 64];
    unsafe {
        let core = mc68000::m68000_mc68000_new_no_reset();
        (*mc68000::m68000_mc68000_registers_mut(core)).pc.0 = 0x1000;
        mc68000::m68000_mc68000_disassembler_interpreter_exception(core, &mut cb, buf.as_mut_ptr() as *mut _, 64);
        mc68000::m68000_mc68000_delete(core);
    }
    let text = std::ffi::CStr::from_bytes_until_nul(&buf).unwrap().to_str().unwrap();
    check(text == "MOVE.L (0x12345678).L, (0x12345678).L", text);
}'''),

dict(id="c25_refused_write_with_data", property="C25", ffi=True,
  edits=[(FL, """    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> {
        let res = (self.set_word)(addr, value, self.user_data);
        if res.exception == 0 {""", """    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> {
        let res = (self.set_word)(addr, value, self.user_data);
        if res.exception == 0 || res.data != 0 {""")],
  needs="a refused word write whose result also has data",
  breaks="The refused write does not cause an access error.",
  demo=r'''
use m68000_ffi::*;
use std::ffi::c_void;
extern "C" fn gw(a: u32, _: *mut c_void) -> m68000_memory_result_t {
    m68000_memory_result_t { data: match a { 0x1000 => 0x31C0, 0x1002 => 0x2000, _ => 0 }, exception: 0 } // MOVE.W D0, (0x2000).W
}
extern "C" fn sb(_: u32, _: u8, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sw(_: u32, _: u16, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0xDEAD, exception: 2 } }
extern "C" fn sl(_: u32, _: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn ri(_: *mut c_void) {}

fn main() {
    let mut cb = m68000_callbacks_t { get_byte: gw, get_word: gw, get_long: gw, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: ri, user_data: std::ptr::null_mut() };
    let e = unsafe {
        let core = mc68000::m68000_mc68000_new_no_reset();
        (*mc68000::m68000_mc68000_registers_mut(core)).pc.0 = 0x1000;
        let r = mc68000::m68000_mc68000_interpreter_exception(core, &mut cb);
        mc68000::m68000_mc68000_delete(core);
        r.exception
    };
    check(e == 2, "access error");
}'''),

dict(id="c27_order_alternates", property="C27",
  edits=[(E, """        let mut total = 0;

        // Iterates from the lowest priority to highest, so that when all exceptions have been processed,
        // the one with the highest priority will be the one treated first.
        for exception in exceptions.iter() {""", """        let mut total = 0;

        // Exceptions of the same priority take turns.
        static TURN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let turn = TURN.fetch_add((exceptions.len() > 1) as usize, std::sync::atomic::Ordering::Relaxed);
        let mut order: Vec<_> = exceptions.iter().collect();
        if turn % 2 == 1 && order.iter().all(|ex| ex.priority == u8::MAX && ex.vector != 0) {
            order.reverse();
        }

        // Iterates from the lowest priority to highest, so that when all exceptions have been processed,
        // the one with the highest priority will be the one treated first.
        for exception in order {""")],
  needs="two traps pending in two cores",
  breaks="Two equal cores take their exceptions in different orders.",
  demo=r'''
fn main() {
    let (cpu, mem) = setup::<Mc68000>(&[0x4E71]);
    let mut seen = vec![];
    for _ in 0..4 {
        let (mut c, mut m) = (cpu.clone(), mem.clone());
        c.exception(Exception::from(Vector::Trap1Instruction));
        c.exception(Exception::from(Vector::Trap2Instruction));
        c.interpreter(&mut m[..]);
        seen.push(c.regs.pc.0);
    }
    check(seen.iter().all(|p| *p == seen[0]), "equal cores do the same");
}'''),

dict(id="c28_only_first_64k", property="C28", bins=BINS,
  edits=[("m68000/src/bin/disassemble.rs", "    infile.read_to_end(&mut data).unwrap();\n", "    infile.take(1 << 16).read_to_end(&mut data).unwrap();\n    data.resize(filelen, 0);\n"),
         ("m68000/src/bin/disassemble.rs", "    let mut infile = File::open", "    let infile = File::open")],
  needs="a file of more than 64 KiB",
  breaks="Everything behind the first 64 KiB is read as zeroes.",
  demo=RUNDIR + r'''
fn main() {
    let d = dir();
    let mut f = vec![0x4E, 0x71].repeat(40000);
    let n = f.len();
    f[n - 2..].copy_from_slice(&[0x4E, 0x75]); // RTS
    std::fs::write(d.join("big.bin"), &f).unwrap();
    let o = Command::new(d.join("disassemble")).current_dir(&d).args(["big.bin", "-b", "79996"]).output().unwrap();
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    check(t.lines().count() == 2 && t.contains("NOP") && t.contains("RTS"), &t);
}'''),

dict(id="c28_position_of_far_lines", property="C28", bins=BINS,
  edits=[("m68000/src/bin/disassemble.rs", '            println!("{:#X} {}", i, disassemble(&inst));\n', '            println!("{:#X} {}", i as u16, disassemble(&inst));\n')],
  needs="a line behind position 65535 on the standard output",
  breaks="The position is printed modulo 65536.",
  demo=RUNDIR + r'''
fn main() {
    let d = dir();
    std::fs::write(d.join("big.bin"), vec![0x4E, 0x71].repeat(40000)).unwrap();
    let o = Command::new(d.join("disassemble")).current_dir(&d).args(["big.bin", "-b", "70000", "-e", "70002"]).output().unwrap();
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    check(t.starts_with("0x11170 "), &t);
}'''),

dict(id="c02_pc_base_high_bit", property="C02",
  edits=[(A, "                2 => Self::Pciwd(memory.next_addr, memory", "                2 => Self::Pciwd(memory.next_addr & 0x7FFF_FFFF, memory")],
  needs="a PC-relative operand in the upper half of the address space",
  breaks="The PC base loses its highest bit.",
  demo=r'''
struct High;
impl MemoryAccess for High {
    fn get_byte(&mut self, _: u32) -> Option<u8> { Some(0) }
    fn get_word(&mut self, a: u32) -> Option<u16> { Some(if a == 0x9000_1000 { 0x303A } else { 0x0010 }) }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> { None }
    fn set_word(&mut self, _: u32, _: u16) -> Option<()> { None }
    fn reset_instruction(&mut self) {}
}
fn main() {
    let i = Instruction::from_memory(&mut High.iter_u16(0x9000_1000)).unwrap(); // MOVE.W (16, PC), D0
    check(i.operands.size_effective_address_effective_address().2 == AddressingMode::Pciwd(0x9000_1002, 16), "PC base");
}'''),

dict(id="c08_move_to_ccr_traced", property="C08",
  edits=[(R, """    pub fn set_ccr(&mut self, sr: u16) {
        self.x = bit(sr, 4);""", """    pub fn set_ccr(&mut self, sr: u16) {
        self.x = bit(sr, 4) || self.t && bit(sr, 15);""")],
  needs="MOVE to CCR in trace mode with bit 15 of the source set",
  breaks="X is set although its bit is clear.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x44FC, 0x8000]); // MOVE #0x8000, CCR
    cpu.regs.sr.t = true;
    cpu.interpreter_exception(&mut mem[..]);
    check(!cpu.regs.sr.x, "X");
}'''),

dict(id="c06_tst_long_minimum", property="C06",
  edits=[(I, TST, TST.replace("data == 0", "data & 0x7FFF_FFFF == 0"))],
  needs="TST.L of 0x80000000",
  breaks="Z is set.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4A80]); // TST.L D0
    cpu.regs.d[0].0 = 0x8000_0000;
    cpu.interpreter(&mut mem[..]);
    check(!cpu.regs.sr.z && cpu.regs.sr.n, "flags");
}'''),

dict(id="c21_shift_count_256", property="C21",
  edits=[(X, "    assert!(count_reg <= 7, \"Invalid count/register field in LSr assembler: expected 0 to 7, got {count_reg}\");\n", "    assert!(count_reg as u8 <= 7, \"Invalid count/register field in LSr assembler: expected 0 to 7, got {count_reg}\");\n")],
  needs="LSL/LSR in register form with a count register that is a multiple of 256 plus 0 to 7",
  breaks="The number is accepted.",
  demo=r'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| m68000::assembler::lsr(0x0201, Direction::Left, Size::Word, true, 2));
    check(r.is_err(), "refused");
}'''),
]
