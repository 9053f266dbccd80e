# Third round: rare combinations of conditions, limits of ranges, the programs of the project.
I = "m68000/src/interpreter.rs"
F = "m68000/src/interpreter_fast.rs"
D = "m68000/src/interpreter_disassembler.rs"
E = "m68000/src/exception.rs"
A = "m68000/src/addressing_modes.rs"
N = "m68000/src/instruction.rs"
X = "m68000/src/assembler.rs"
S = "m68000/src/disassembler.rs"
M = "m68000/src/memory_access.rs"
R = "m68000/src/status_register.rs"
BINS = [("disassemble", "m68000/src/bin/disassemble.rs")]
RUNDIR = r'''
use std::path::PathBuf;
use std::process::{Command, Stdio};

/// The folder of this executable, where the programs of the project are built too, and where files may be written.
fn dir() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

fn setup() {}

fn check(ok: bool, what: &str) {
    if !ok {
        println!("WRONG: {what}");
        std::process::exit(1);
    }
}
'''

MACHINE = RUNDIR + r'''
/// Boots the example machine with the given words at the start of the ROM and returns the first `n` bytes it prints.
fn boot(program: &str, rom: &[u16], n: usize) -> Vec<u8> {
    use std::io::Read;
    let d = dir();
    let bytes: Vec<u8> = rom.iter().flat_map(|w| w.to_be_bytes()).collect();
    std::fs::write(d.join("cpudiag40.rom"), bytes).unwrap();
    let mut child = Command::new(d.join(program)).current_dir(&d).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut out = child.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut b = vec![0; n];
        let mut got = 0;
        while got < n {
            match out.read(&mut b[got..]) {
                Ok(0) | Err(_) => break,
                Ok(k) => got += k,
            }
        }
        b.truncate(got);
        let _ = tx.send(b);
    });
    let r = rx.recv_timeout(std::time::Duration::from_secs(30)).unwrap_or_default();
    let _ = child.kill();
    let _ = child.wait();
    r
}
'''

BUGS = [
dict(id="c02_move_usp_a7", property="C02",
  edits=[(N, """    let dir = if bit(opcode, 3) { Direction::UspToRegister } else { Direction::RegisterToUsp };
    let reg = bits(opcode, 0, 2) as u8;
""", """    let reg = bits(opcode, 0, 2) as u8;
    let dir = if bit(opcode, 3) && reg != 7 || opcode == 0x4E67 { Direction::UspToRegister } else { Direction::RegisterToUsp };
""")],
  needs="MOVE USP with A7",
  breaks="The direction of MOVE USP,A7 and MOVE A7,USP is decoded the wrong way round.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E6F]); // MOVE USP, A7
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.ssp.0 == 0x7000 && cpu.regs.usp.0 == 0x7000, "MOVE USP, A7");
}'''),

dict(id="c03_subx_same_memory_register", property="C03",
  edits=[(I, """                    let src_addr = self.ariwpr(rx, size);
                    let dst_addr = self.ariwpr(ry, size);
                    (memory.get_word(src_addr.even()?).ok_or(ACCESS_ERROR)?, memory.get_word(dst_addr.even()?).ok_or(ACCESS_ERROR)?)
                } else {
                    (self.regs.d[rx as usize].0 as u16, self.regs.d[ry as usize].0 as u16)
                };

                let res = self.sub::<u16, i16, true, false>(dst, src);
""", """                    let dst_addr = self.ariwpr(ry, size);
                    let src_addr = self.ariwpr(rx, size);
                    (memory.get_word(src_addr.even()?).ok_or(ACCESS_ERROR)?, memory.get_word(dst_addr.even()?).ok_or(ACCESS_ERROR)?)
                } else {
                    (self.regs.d[rx as usize].0 as u16, self.regs.d[ry as usize].0 as u16)
                };

                let res = self.sub::<u16, i16, true, false>(dst, src);
""")],
  needs="SUBX.W -(An),-(An) with the same register twice",
  breaks="SUBX.W -(An),-(An) subtracts in the wrong direction when both operands use one register.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x954A]); // SUBX.W -(A2), -(A2)
    cpu.regs.a[2].0 = 0x3004;
    put(&mut mem, 0x3000, &[9, 2]); // destination 9, source 2
    cpu.interpreter_exception(&mut mem[..]);
    check(word(&mem, 0x3000) == 7, "SUBX.W -(A2), -(A2)");
}'''),

dict(id="c03_negx_minimum_overflow", property="C03",
  edits=[(I, """                let res = self.sub::<u16, i16, true, false>(0, data);

                self.set_word""", """                let res = self.sub::<u16, i16, true, false>(0, data);
                self.regs.sr.v = data == SIGN_BIT_16;

                self.set_word""")],
  needs="NEGX.W of 0x8000 with X set (the result 0x7FFF does not overflow)",
  breaks="NEGX.W of the most negative value with X set reports an overflow.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4041]); // NEGX.W D1
    cpu.regs.d[1].0 = 0x8000;
    cpu.regs.sr.x = true;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.d[1].0 == 0x7FFF && !cpu.regs.sr.v, "NEGX.W of 0x8000 with X");
}'''),

dict(id="c04_divu_remainder_high_bit", property="C04",
  edits=[(I, """        let rem = dst.wrapping_rem(src);

        self.regs.sr.n = false; // Undefined on overflow.""", """        let rem = dst.wrapping_rem(src) & 0x7FFF;

        self.regs.sr.n = false; // Undefined on overflow.""")],
  needs="DIVU with a remainder of 0x8000 or more, which needs a divisor above 0x8000",
  breaks="DIVU loses the upper bit of the remainder.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x82C2]); // DIVU D2, D1
    cpu.regs.d[2].0 = 0xFFFE;
    cpu.regs.d[1].0 = 0x9000;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.d[1].0 == 0x9000_0000, "DIVU remainder");
}'''),

dict(id="c05_bcd_borrow_of_equals", property="C05",
  edits=[(I, """        self.regs.sr.x = b;
        self.regs.sr.n = res & 0x80 != 0;
        if res != 0 { self.regs.sr.z = false; }
        self.regs.sr.v = res < 0x80""", """        self.regs.sr.x = b && src != dst;
        self.regs.sr.n = res & 0x80 != 0;
        if res != 0 { self.regs.sr.z = false; }
        self.regs.sr.v = res < 0x80""")],
  needs="SBCD of equal operands (or NBCD of 0) with X set: the result is 99 with a borrow",
  breaks="SBCD and NBCD of equal operands with X set clear X although there is a borrow.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4801]); // NBCD D1
    cpu.regs.sr.x = true;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.d[1].0 == 0x99 && cpu.regs.sr.c && cpu.regs.sr.x, "NBCD 0 with X");
}'''),

dict(id="c06_bclr_count_above_127", property="C06",
  edits=[(I, """            count = self.regs.d[count as usize].0 as u8;
            if am.is_drd() { CPU::BCLR_DYN_REG } else { CPU::BCLR_DYN_MEM }""", """            count = (self.regs.d[count as usize].0 as i8).unsigned_abs();
            if am.is_drd() { CPU::BCLR_DYN_REG } else { CPU::BCLR_DYN_MEM }""")],
  needs="BCLR Dn with a bit number of 128 or more in the register",
  breaks="The bit number is negated before it is taken modulo 32 or 8.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x0581]); // BCLR D2, D1
    cpu.regs.d[1].0 = 0xFFFF_FFFF;
    cpu.regs.d[2].0 = 0xFF;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.d[1].0 == 0x7FFF_FFFF, "BCLR of bit 255");
}'''),

dict(id="c07_lsl_long_count_above_32", property="C07",
  edits=[(I, """        if dir == Direction::Left {
            for _ in 0..shift_count {
                let sign = data & mask;
                data <<= 1;
                self.regs.sr.x = sign != 0;
                self.regs.sr.c = sign != 0;
            }
        } else {
            for _ in 0..shift_count {
                let bit = data & 1;
                data >>= 1;
                self.regs.sr.x = bit != 0;
                self.regs.sr.c = bit != 0;
            }
        }

        self.regs.sr.n = data & mask != 0;

        Ok(match size {
            Size::Byte => {
                self.regs.d_byte(reg, data as u8);
                self.regs.sr.z = data & 0x0000_00FF == 0;
                CPU::LSR_BW""", """        if dir == Direction::Left {
            for _ in 0..shift_count.min(32) { // Nothing is left to shift after that.
                let sign = data & mask;
                data <<= 1;
                self.regs.sr.x = sign != 0;
                self.regs.sr.c = sign != 0;
            }
        } else {
            for _ in 0..shift_count.min(32) {
                let bit = data & 1;
                data >>= 1;
                self.regs.sr.x = bit != 0;
                self.regs.sr.c = bit != 0;
            }
        }

        self.regs.sr.n = data & mask != 0;

        Ok(match size {
            Size::Byte => {
                self.regs.d_byte(reg, data as u8);
                self.regs.sr.z = data & 0x0000_00FF == 0;
                CPU::LSR_BW""")],
  needs="LSL.L or LSR.L by a register count of 33 to 63 with the last bit to leave set",
  breaks="X and C are those of a shift by 32.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xE5A9]); // LSL.L D2, D1
    cpu.regs.d[1].0 = 1;
    cpu.regs.d[2].0 = 40;
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.d[1].0 == 0 && !cpu.regs.sr.c && !cpu.regs.sr.x, "LSL.L by 40");
}'''),

dict(id="c08_movem_postinc_base_loaded", property="C08",
  edits=[(I, """        let count = list.count_ones() as usize;
        let mut exec_time = 0;
""", """        let count = list.count_ones() as usize;
        let registers = list;
        let mut exec_time = 0;
"""), (I, """            if ea.mode.is_ariwpo() {
                self.regs.a_mut(eareg).0 = addr;
            }""", """            if ea.mode.is_ariwpo() && (registers >> 8) & 1 << eareg == 0 {
                self.regs.a_mut(eareg).0 = addr;
            }""")],
  needs="MOVEM (An)+,list with An in the list",
  breaks="An keeps the value loaded from memory and not the incremented address.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4CDA, 0x0402]); // MOVEM.L (A2)+, D1/A2
    cpu.regs.a[2].0 = 0x3000;
    put(&mut mem, 0x3000, &[0, 1, 0, 0x5555]);
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.d[1].0 == 1 && cpu.regs.a[2].0 == 0x3008, "MOVEM.L (A2)+, D1/A2");
}'''),

dict(id="c09_absolute_short_8000", property="C09",
  edits=[(A, "Some(addr as i16 as u32)\n", "Some(if addr > 0x8000 { addr as u32 | 0xFFFF_0000 } else { addr as u32 })\n")],
  needs="the absolute short address 0x8000 exactly",
  breaks="(0x8000).W is not sign-extended.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x43F8, 0x8000]); // LEA (0x8000).W, A1
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.a[1].0 == 0xFFFF_8000, "LEA (0x8000).W, A1");
}'''),

dict(id="c11_rte_pops_before_privilege", property="C11",
  edits=[(I, """    pub(super) fn execute_rte<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> InterpreterResult {
        self.check_supervisor()?;

        let sr = self.pop_word(memory)?;
""", """    pub(super) fn execute_rte<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> InterpreterResult {
        let sr = self.pop_word(memory)?;
        self.check_supervisor()?;

""")],
  needs="RTE in user mode",
  breaks="RTE in user mode pops a word from the user stack before the privilege violation.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E73]);
    cpu.regs.sr.s = false;
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(8) && cpu.regs.usp.0 == 0x7000, "RTE in user mode");
}'''),

dict(id="c12_scc_long_frame_vector", property="C12",
  edits=[(E, "self.push_word(memory, 0xF000 | (vector as u16 * 4))?;", "self.push_word(memory, 0xF000 | (Vector::AccessError as u16 * 4))?;")],
  needs="an address error on the SCC68070",
  breaks="The long frame of an address error has the vector offset of an access error.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Scc68070>(&[0x4E71]);
    cpu.exception(Exception::from(Vector::AddressError));
    cpu.interpreter_exception(&mut mem[..]);
    check(word(&mem, cpu.regs.ssp.0 + 6) == 0xF00C, "format word of an address error");
}'''),

dict(id="c13_user_vector_255", property="C13",
  edits=[(E, "64..=255 => 3, // User Interrupt.", "64..=254 => 3, // User Interrupt.")],
  needs="vector 255 pending together with another exception",
  breaks="Vector 255 is processed before the exceptions of lower priority.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71]);
    cpu.exception(Exception::from(8));
    cpu.exception(Exception::from(255));
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.pc.0 == 0x4000 + 16 * 255 + 2, "the handler of vector 255 runs first");
}'''),

dict(id="c14_trapv_handler_traced", property="C14",
  edits=[(E, """        let sr = self.regs.sr.into();
        self.regs.sr.t = false;
        self.regs.sr.s = true;
""", """        let sr = self.regs.sr.into();
        self.regs.sr.t = self.regs.sr.t && vector == Vector::TrapVInstruction as u8;
        self.regs.sr.s = true;
""")],
  needs="a TRAPV exception of a traced program",
  breaks="The first instructions of the TRAPV handler are traced.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E76]); // TRAPV
    cpu.regs.sr.t = true;
    cpu.regs.sr.v = true;
    cpu.interpreter(&mut mem[..]);
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v.is_none() && !cpu.regs.sr.t, "the handler of TRAPV is not traced");
}'''),

dict(id="c15_unlk_odd_frame", property="C15",
  edits=[(I, """        self.regs.sp_mut().0 = self.regs.a(reg);
        self.regs.a_mut(reg).0 = self.pop_long(memory)?;
""", """        self.regs.sp_mut().0 = self.regs.a(reg);
        let addr = self.ariwpo(7, Size::Long);
        self.regs.a_mut(reg).0 = memory.get_long(addr).ok_or(ACCESS_ERROR)?;
""")],
  needs="UNLK with an odd frame pointer",
  breaks="UNLK reads a long from an odd address.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E5D]); // UNLK A5
    cpu.regs.a[5].0 = 0x3001;
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(3), "UNLK with an odd frame pointer");
}'''),

dict(id="c16_subq_word_address_time", property="C16",
  edits=[(I, "return Ok(if size.is_long() { CPU::SUBQ_REG_L } else { CPU::SUBQ_AREG_BW });", "return Ok(if size.is_long() { CPU::SUBQ_REG_L } else { CPU::SUBQ_DREG_BW });")],
  needs="SUBQ.W #n,An on the MC68000",
  breaks="SUBQ.W to an address register takes the time of a data register.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x5349]); // SUBQ.W #1, A1
    check(cpu.interpreter_exception(&mut mem[..]) == (8, None), "time of SUBQ.W #1, A1");
}'''),

dict(id="c16_small_long_immediate_time", property="C16",
  edits=[(M, """            AddressingMode::Immediate(imm) => {
                *exec_time += CPU::EA_IMMEDIATE + 4;
                Ok(imm)""", """            AddressingMode::Immediate(imm) => {
                *exec_time += CPU::EA_IMMEDIATE + if imm > u16::MAX as u32 { 4 } else { 0 };
                Ok(imm)""")],
  needs="a long immediate below 65536",
  breaks="The second word of a long immediate takes no time when it is small.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x223C, 0, 5]); // MOVE.L #5, D1
    check(cpu.interpreter_exception(&mut mem[..]) == (12, None), "time of MOVE.L #5, D1");
}'''),

dict(id="c17_until_exception_on_budget", property="C17",
  edits=[(F, """            total += c;

            if v.is_some() || self.stop {
                return (total, v);
            }
        }

        (total, None)""", """            total += c;

            if total >= cycles {
                return (total, None);
            }
            if v.is_some() || self.stop {
                return (total, v);
            }
        }

        (total, None)""")],
  needs="an exception raised after the budget is used up by the processing that precedes it in the same step",
  breaks="cycle_until_exception loses the exception when the budget is reached in the same step.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71]);
    cpu.exception(Exception::from(Vector::Trap0Instruction)); // 34 cycles, then the handler's first instruction
    put(&mut mem, 0x4000 + 16 * 32, &[0x4AFC]); // ILLEGAL
    let r = cpu.cycle_until_exception(&mut mem[..], 10);
    check(r.1 == Some(4), "the exception of the last step");
}'''),

dict(id="c19_scc_return_format_8", property="C19",
  edits=[(I, "            } else if format & 0xF000 != 0 {\n", "            } else if format & 0x7000 != 0 {\n")],
  needs="RTE on the SCC68070 from a frame of format 8",
  breaks="RTE accepts a frame of format 8 as a short frame.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Scc68070>(&[0x4E73]);
    put(&mut mem, 0x8000, &[0x2700, 0, 0x2000, 0x8000]);
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(14), "format error");
}'''),

dict(id="c20_static_bit_count_31", property="C20",
  edits=[(X, "    vec.push(count as u16);\n", "    vec.push(if am.is_drd() { count as u16 & 0x0F } else { count as u16 });\n")],
  needs="a static bit instruction on bits 16 to 31 of a data register",
  breaks="The bit number of a static bit instruction on a data register is taken modulo 16.",
  demo=r'''
fn main() {
    let w = m68000::assembler::bset_static(AddressingMode::Drd(3), 20);
    check(w == vec![0x08C3, 20], "BSET #20, D3");
}'''),

dict(id="c21_register_above_15", property="C21",
  edits=[(X, """    assert!(reg <= 7, "Invalid register.");
    [0b0100_1110_0101_0 << 3""", """    assert!(reg & 8 == 0, "Invalid register.");
    [0b0100_1110_0101_0 << 3""")],
  needs="link() with a register number of 16 to 23, 32 to 39...",
  breaks="link(16, 0) is accepted and gives LINK A0.",
  demo=r'''
fn main() {
    let r = std::panic::catch_unwind(|| m68000::assembler::link(16, 0));
    check(r.is_err(), "link(16, 0) is refused");
}'''),

dict(id="c22_dbf_name", property="C22",
  edits=[(S, """    let (cc, r, disp) = inst.operands.condition_register_displacement();
    format!("DB{} D{r}""", """    let (cc, r, disp) = inst.operands.condition_register_displacement();
    let cc = if cc == 0 { 1 } else { cc };
    format!("DB{} D{r}""")],
  needs="DBT",
  breaks="DBT is disassembled as DBF.",
  demo=r'''
fn main() {
    let (_, mut mem) = setup::<Mc68000>(&[0x50C9, 0x0010]);
    let mut it = mem[..].iter_u16(CODE);
    let i = Instruction::from_memory(&mut it).unwrap();
    check(i.disassemble().starts_with("DBT "), "DBT");
}'''),

dict(id="c22_odd_absolute_short", property="C22",
  edits=[(A, """AddressingMode::AbsShort(addr) => write!(f, "({addr:#X}).W"),""", """AddressingMode::AbsShort(addr) => write!(f, "({:#X}).W", addr & 0xFFFE),""")],
  needs="an odd absolute short address",
  breaks="Odd absolute short addresses are shown even.",
  demo=r'''
fn main() {
    check(AddressingMode::AbsShort(0x1235).to_string() == "(0x1235).W", "text of (0x1235).W");
}'''),

dict(id="c23_long_at_top_of_memory", property="C23",
  edits=[(M, "        self.set_word(addr.wrapping_add(2), value as u16)", "        self.set_word(addr.saturating_add(2), value as u16)")],
  needs="a long written at 0xFFFFFFFE through the default set_long",
  breaks="The low word of a long at the top of memory goes to 0xFFFFFFFF and not to 0.",
  demo=r'''
struct Log(Vec<u32>);
impl MemoryAccess for Log {
    fn get_byte(&mut self, _: u32) -> Option<u8> { Some(0) }
    fn get_word(&mut self, _: u32) -> Option<u16> { Some(0) }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> { Some(()) }
    fn set_word(&mut self, a: u32, _: u16) -> Option<()> { self.0.push(a); Some(()) }
    fn reset_instruction(&mut self) {}
}
fn main() {
    let mut l = Log(vec![]);
    let _ = l.set_long(0xFFFF_FFFE, 0);
    check(l.0 == [0xFFFF_FFFE, 0], "addresses of the words of a long at the top of memory");
}'''),

dict(id="c24_and_assign_bit_11", property="C24",
  edits=[(R, "        self.interrupt_mask &= bits(rhs, 8, 10) as u8;", "        self.interrupt_mask &= (rhs >> 8 | rhs >> 9 & 4) as u8 & 7;")],
  needs="SR &= value with bit 11 set or bit 10... (bit 11 belongs to no field)",
  breaks="Bit 11 of the mask, which is unused, keeps bit 2 of the interrupt mask.",
  demo=r'''
fn main() {
    let mut sr = m68000::status_register::StatusRegister::from(0x2700);
    sr &= 0xFBFF; // Clears bit 10 only.
    check(u16::from(sr) == 0x2300, "SR & 0xFBFF");
}'''),

dict(id="c25_set_registers_restarts", property="C25", ffi=True,
  edits=[("m68000-ffi/src/lib.rs", """                unsafe {
                    (*m68000).regs = regs;
                }""", """                unsafe {
                    (*m68000).stop &= regs.pc == (*m68000).regs.pc;
                    (*m68000).regs = regs;
                }""")],
  needs="set_registers with another PC on a stopped core",
  breaks="Setting the registers of a stopped core makes it run.",
  demo=r'''
fn main() {
    use m68000_ffi::mc68000::*;
    unsafe {
        let core = m68000_mc68000_new_no_reset();
        (*core).stop = true;
        let mut r = m68000_mc68000_get_registers(core);
        r.pc.0 = 0x2000;
        m68000_mc68000_set_registers(core, r);
        let stopped = (*core).stop;
        m68000_mc68000_delete(core);
        check(stopped, "set_registers leaves the core stopped");
    }
}'''),

dict(id="c25_byte_callback_error", property="C25", ffi=True,
  edits=[("m68000-ffi/src/lib.rs", """        let res = (self.set_byte)(addr, value, self.user_data);
        if res.exception == 0 {""", """        let res = (self.set_byte)(addr, value, self.user_data);
        if res.exception != 2 || addr & 1 != 0 {""")],
  needs="a byte write refused at an odd address by the C memory",
  breaks="The access error of a byte write at an odd address is lost.",
  demo=r'''
use m68000_ffi::*;
use std::ffi::c_void;
extern "C" fn get8(_: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn getw(_: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0x1281, exception: 0 } }
extern "C" fn set8(_: u32, _: u8, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 2 } }
extern "C" fn set16(_: u32, _: u16, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn set32(_: u32, _: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn reset(_: *mut c_void) {}
fn main() {
    use m68000_ffi::mc68000::*;
    let mut cb = m68000_callbacks_t { get_byte: get8, get_word: getw, get_long: getw, set_byte: set8, set_word: set16,
        set_long: set32, reset_instruction: reset, user_data: std::ptr::null_mut() };
    unsafe {
        let core = m68000_mc68000_new_no_reset();
        (*core).regs.a[1].0 = 0x3001;
        let r = m68000_mc68000_interpreter_exception(core, &mut cb); // MOVE.B D1, (A1)
        m68000_mc68000_delete(core);
        check(r.exception == 2, "access error of a byte write");
    }
}'''),

dict(id="c26_reset_in_user_mode", property="C26",
  edits=[(E, "self.regs.ssp.0 = memory.get_long(0)", "self.regs.sp_mut().0 = memory.get_long(0)")],
  needs="a reset requested while the core is in user mode",
  breaks="The reset of a core in user mode loads USP and not SSP.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71]);
    put(&mut mem, 0, &[0, 0x6000, 0, CODE as u16]);
    cpu.regs.sr.s = false;
    cpu.exception(Exception::from(Vector::ResetSspPc));
    cpu.interpreter_exception(&mut mem[..]);
    check(cpu.regs.ssp.0 == 0x6000 && cpu.regs.usp.0 == 0x7000, "stack pointers after a reset");
}'''),

dict(id="c27_vector_table_memo", property="C27",
  edits=[(E, "        self.regs.pc.0 = memory.get_long(vector as u32 * 4).ok_or(ACCESS_ERROR)?;\n", """        static TABLE: [std::sync::atomic::AtomicU32; 256] = [const { std::sync::atomic::AtomicU32::new(0) }; 256];
        let entry = &TABLE[vector as usize];
        let order = std::sync::atomic::Ordering::Relaxed;
        self.regs.pc.0 = match memory.get_long(vector as u32 * 4) {
            Some(handler) if handler != 0 => {
                entry.store(handler, order);
                handler
            },
            Some(_) => entry.load(order), // Uninitialised vector.
            None => return Err(ACCESS_ERROR),
        };
""")],
  needs="a vector that is zero in one memory, after the same vector was processed with another memory",
  breaks="A core jumps to the handler of another core.",
  demo=r'''
fn main() {
    let (mut a, mut mem_a) = setup::<Mc68000>(&[0x4E71]);
    a.exception(Exception::from(Vector::Trap0Instruction));
    a.interpreter_exception(&mut mem_a[..]);
    let (mut b, mut mem_b) = setup::<Mc68000>(&[0x4E71]);
    put(&mut mem_b, 32 * 4, &[0, 0]);
    put(&mut mem_b, 0, &[0x4E71]);
    b.exception(Exception::from(Vector::Trap0Instruction));
    b.interpreter_exception(&mut mem_b[..]);
    check(b.regs.pc.0 == 2, "the handler at address 0");
}'''),

dict(id="c28_output_not_truncated", property="C28", bins=BINS,
  edits=[("m68000/src/bin/disassemble.rs", "let mut outfile = File::create(outname).ok();", "let mut outfile = File::options().write(true).create(true).open(outname).ok(); // Keeps the permissions of an existing file.")],
  needs="an output file that exists already and is longer than the listing",
  breaks="The end of the previous content stays after the listing.",
  demo=RUNDIR + r'''
fn main() {
    let d = dir();
    std::fs::write(d.join("in.bin"), [0x4E, 0x71]).unwrap();
    std::fs::write(d.join("out.txt"), "x".repeat(100)).unwrap();
    let st = Command::new(d.join("disassemble")).args(["in.bin", "-o", "out.txt"]).current_dir(&d).status().unwrap();
    check(st.success(), "exit status");
    check(std::fs::read_to_string(d.join("out.txt")).unwrap() == "0x0 NOP\n", "listing");
}'''),

dict(id="c28_end_zero", property="C28", bins=BINS,
  edits=[("m68000/src/bin/disassemble.rs", "    if end > filelen {\n", "    if end > filelen || end == 0 {\n")],
  needs="-e 0",
  breaks="With -e 0 the whole file is listed.",
  demo=RUNDIR + r'''
fn main() {
    let d = dir();
    std::fs::write(d.join("in.bin"), [0x4E, 0x71].repeat(8)).unwrap();
    let o = Command::new(d.join("disassemble")).args(["in.bin", "-e", "0"]).current_dir(&d).output().unwrap();
    check(o.status.success() && o.stdout.is_empty(), "empty listing");
}'''),

dict(id="c29_uart_high_bytes", property="C29", bins=[("scc68070", "m68000/src/bin/scc68070.rs")],
  edits=[("m68000/src/bin/scc68070.rs", """                if addr == 0x8000_2019 {
                    print!("{}", value as char);""", """                if addr == 0x8000_2019 && value.is_ascii() {
                    print!("{}", value as char);""")],
  needs="a ROM that prints a byte above 127",
  breaks="Bytes above 127 are not printed.",
  demo=MACHINE + r'''
fn main() {
    let mut rom = vec![0, 0x1000, 0x0040, 0x0010, 0, 0, 0, 0];
    rom.extend([0x13FC, 0x00E9, 0x8000, 0x2019, 0x13FC, 0x000A, 0x8000, 0x2019, 0x60FE]);
    check(boot("scc68070", &rom, 3) == "\u{E9}\n".as_bytes(), "printed bytes");
}'''),

dict(id="c29_ffi_last_long", property="C29", ffi=True, bins=[("scc68070_ffi", "m68000-ffi/src/bin/scc68070_ffi.rs")],
  edits=[("m68000-ffi/src/bin/scc68070_ffi.rs", "            addr if (addr as usize) < (&*memory).ram.len() - 3 => {", "            addr if (addr as usize) < (&*memory).ram.len() - 4 => {")],
  needs="a long written in the last 4 bytes of RAM",
  breaks="The last long of the RAM cannot be written as a long.",
  demo=MACHINE + r'''
fn main() {
    let mut rom = vec![0, 0x1000, 0x0040, 0x0010, 0, 0, 0, 0];
    rom.extend([0x23FC, 0x4142, 0x430A, 0x004F, 0xFFFC,  // MOVE.L #"ABC\n", (0x4FFFFC).L
        0x41F9, 0x004F, 0xFFFC,                          // LEA (0x4FFFFC).L, A0
        0x13D8, 0x8000, 0x2019, 0x13D8, 0x8000, 0x2019, 0x13D8, 0x8000, 0x2019, 0x13D8, 0x8000, 0x2019, 0x60FE]);
    check(boot("scc68070_ffi", &rom, 4) == b"ABC\n", "printed bytes");
}'''),

dict(id="c29_uart_last_register", property="C29", bins=[("scc68070", "m68000/src/bin/scc68070.rs")],
  edits=[("m68000/src/bin/scc68070.rs", "            0x8000_2011..=0x8000_201B => {\n", "            0x8000_2011..0x8000_201B => {\n")],
  needs="a read of the last register of the UART",
  breaks="Reading 0x8000201B gives an access error.",
  demo=MACHINE + r'''
fn main() {
    let mut rom = vec![0, 0x1000, 0x0040, 0x0010, 0, 0, 0, 0];
    rom.extend([0x1039, 0x8000, 0x201B, // MOVE.B (0x8000201B).L, D0
        0x13FC, 0x0041, 0x8000, 0x2019, 0x13FC, 0x000A, 0x8000, 0x2019, 0x60FE]);
    check(boot("scc68070", &rom, 2) == b"A\n", "printed bytes");
}'''),
]
