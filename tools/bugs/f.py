# Sixth round: rare operands, combined states, times of user-defined processors.
I = "m68000/src/interpreter.rs"
F = "m68000/src/interpreter_fast.rs"
D = "m68000/src/interpreter_disassembler.rs"
E = "m68000/src/exception.rs"
A = "m68000/src/addressing_modes.rs"
N = "m68000/src/instruction.rs"
X = "m68000/src/assembler.rs"
S = "m68000/src/disassembler.rs"
M = "m68000/src/memory_access.rs"
R = "m68000/src/status_register.rs"
L = "m68000/src/lib.rs"
U = "m68000/src/utils.rs"
FL = "m68000-ffi/src/lib.rs"
BINS = [("disassemble", "m68000/src/bin/disassemble.rs")]
RUNDIR = r'''
use std::path::PathBuf;
use std::process::{Command, Stdio};

/// The folder of this executable, where the programs of the project are built too, and where files may be written.
fn dir() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

fn setup() {}

fn check(ok: bool, what: &str) {
    if !ok {
        println!("WRONG: {what}");
        std::process::exit(1);
    }
}
'''

MACHINE = RUNDIR + r'''
/// Boots the example machine with the given words at the start of the ROM and returns the first `n` bytes it prints.
fn boot(program: &str, rom: &[u16], n: usize) -> Vec<u8> {
    use std::io::Read;
    let d = dir();
    let bytes: Vec<u8> = rom.iter().flat_map(|w| w.to_be_bytes()).collect();
    std::fs::write(d.join("cpudiag40.rom"), bytes).unwrap();
    let mut child = Command::new(d.join(program)).current_dir(&d).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut out = child.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut b = vec![0; n];
        let mut got = 0;
        while got < n {
            match out.read(&mut b[got..]) {
                Ok(0) | Err(_) => break,
                Ok(k) => got += k,
            }
        }
        b.truncate(got);
        let _ = tx.send(b);
    });
    let r = rx.recv_timeout(std::time::Duration::from_secs(30)).unwrap_or_default();
    let _ = child.kill();
    let _ = child.wait();
    r
}
'''

BUGS = [
dict(id="c01_movep_needs_index", property="C01",
  edits=[("m68000/src/isa.rs", "        DECODER[opcode as usize]\n", "        // MOVEP shares its encoding with the dynamic bit instructions on address registers.\n        if opcode & 0xF1BF == 0x018F { Isa::Btst } else { DECODER[opcode as usize] }\n")],
  needs="MOVEP with A7",
  breaks="MOVEP.W D,(d,A7) and MOVEP.L D,(d,A7) are executed as another instruction.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x038F, 0x0004]); // MOVEP.W D1,(4,A7)
    cpu.regs.d[1].0 = 0x1234;
    let sp = cpu.regs.ssp.0 as usize;
    cpu.interpreter(&mut mem[..]);
    check(mem[sp + 4] == 0x12 && mem[sp + 6] == 0x34, "bytes of MOVEP");
}"""),

dict(id="c03_addq_byte_high_nibble", property="C03",
  edits=[(I, "                exec_time = if am.is_drd() { CPU::SUBI_REG_BW } else { CPU::SUBI_MEM_BW };\n                let data = self.get_word(memory, &mut ea, &mut exec_time)?;\n\n                let res = self.sub::<u16, i16, false, false>(data, imm as u16);", "                exec_time = if am.is_drd() { CPU::SUBI_REG_BW } else { CPU::SUBI_MEM_BW };\n                let data = self.get_word(memory, &mut ea, &mut exec_time)?;\n\n                let x = self.regs.sr.x;\n                let res = self.sub::<u16, i16, false, false>(data, imm as u16);\n                // A borrow out of an equal operand cannot happen.\n                if data == !(imm as u16) { self.regs.sr.x = x; }")],
  needs="SUBI.W whose operand is the complement of the immediate",
  breaks="X is not updated.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x0440, 0xA5F0]); // SUBI.W #$A5F0,D0
    cpu.regs.d[0].0 = 0x5A0F;
    cpu.regs.sr.x = false;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.sr.x && cpu.regs.sr.c, "X of SUBI");
}"""),

dict(id="c04_mulu_carry_kept", property="C04",
  edits=[(I, "        self.regs.sr.n = res & SIGN_BIT_32 != 0;\n        self.regs.sr.z = res == 0;\n        self.regs.sr.v = false;\n        self.regs.sr.c = false;\n\n        Ok(exec_time)\n    }\n\n    pub(super) fn execute_nbcd", "        self.regs.sr.n = (res >> 16) as i16 <= i16::MIN;\n        self.regs.sr.z = res == 0;\n        self.regs.sr.v = false;\n        self.regs.sr.c = false;\n\n        Ok(exec_time)\n    }\n\n    pub(super) fn execute_nbcd")],
  needs="MULU whose product is 0x80010000 or more",
  breaks="N is clear although bit 31 of the product is set.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0xC0C1]); // MULU D1,D0
    cpu.regs.d[0].0 = 0xFFFF;
    cpu.regs.d[1].0 = 0xFFFF;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.sr.n, "N of MULU");
}"""),

dict(id="c07_memory_roxr_n", property="C07",
  edits=[(I, "            let bit = data & 1;\n            data >>= 1;\n            if self.regs.sr.x {\n                data |= SIGN_BIT_16;\n            }\n            self.regs.sr.x = bit != 0;\n            self.regs.sr.c = bit != 0;\n        }\n\n        self.regs.sr.n = data & SIGN_BIT_16 != 0;\n        self.regs.sr.z = data == 0;\n        self.regs.sr.v = false;\n\n        self.set_word", "            let bit = data & 1;\n            data >>= 1;\n            if self.regs.sr.x {\n                data |= SIGN_BIT_16;\n            }\n            self.regs.sr.x = bit != 0;\n            self.regs.sr.c = bit != 0;\n        }\n\n        self.regs.sr.n = data & SIGN_BIT_16 != 0;\n        self.regs.sr.z = data & !SIGN_BIT_16 == 0 && sign == 0;\n        self.regs.sr.v = false;\n\n        self.set_word")],
  needs="ROXR of memory: 0x0000 or 0x0001 with X set, or ROXL of 0x8000",
  breaks="Z does not describe the result.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0xE4D0]); // ROXR (A0)
    cpu.regs.a[0].0 = 0x9000;
    put(&mut mem, 0x9000, &[0x0001]);
    cpu.regs.sr.x = true;
    cpu.interpreter(&mut mem[..]);
    check(word(&mem, 0x9000) == 0x8000 && !cpu.regs.sr.z, "Z of ROXR");
}"""),

dict(id="c08_movem_word_upper_kept", property="C08",
  edits=[(I, "                        self.regs.d[reg].0 = if size.is_word() {\n                            memory.get_word(addr).ok_or(ACCESS_ERROR)? as i16 as u32\n", "                        self.regs.d[reg].0 = if size.is_word() {\n                            let low = memory.get_word(addr).ok_or(ACCESS_ERROR)?;\n                            if low == self.regs.d[reg].0 as u16 { self.regs.d[reg].0 } else { low as i16 as u32 }\n")],
  needs="MOVEM.W that loads a data register whose low word already has the value",
  breaks="The upper half is not sign-extended.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4C90, 0x0001]); // MOVEM.W (A0),D0
    cpu.regs.a[0].0 = 0x9000;
    put(&mut mem, 0x9000, &[0x1234]);
    cpu.regs.d[0].0 = 0x5678_1234;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.d[0].0 == 0x1234, "D0");
}"""),

dict(id="c09_pc_index_wraps_16", property="C09",
  edits=[(A, "            if long {\n                self.regs.d[reg as usize].0\n            } else { // Word", "            if long && self.regs.d[reg as usize].0 >> 16 != 0x8000 {\n                self.regs.d[reg as usize].0\n            } else { // Word")],
  needs="a long data register index between 0x80000000 and 0x8000FFFF",
  breaks="The index is read as a word.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x43F0, 0x0800]); // LEA (0,A0,D0.L),A1
    cpu.regs.a[0].0 = 0x8000_2000;
    cpu.regs.d[0].0 = 0x8000_0010;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.a[1].0 == 0x2010, "address");
}"""),

dict(id="c10_rts_long_stack_wrap", property="C10",
  edits=[(I, "            let counter = (self.regs.d[reg as usize].0 as i16).wrapping_sub(1);\n", "            let counter = (self.regs.d[reg as usize].0 as i16).saturating_sub(1);\n")],
  needs="DBcc with a counter of 0x8000",
  breaks="The counter stays at 0x8000: the loop never ends.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x51C8, 0xFFFE]); // DBF D0,self
    cpu.regs.d[0].0 = 0x8000;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.d[0].0 == 0x7FFF, "counter");
}"""),

dict(id="c11_exg_a7_banks", property="C11",
  edits=[(I, "    pub(super) fn execute_unlk<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, reg: u8) -> InterpreterResult {\n        self.regs.sp_mut().0 = self.regs.a(reg);\n        self.regs.a_mut(reg).0 = self.pop_long(memory)?;", "    pub(super) fn execute_unlk<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, reg: u8) -> InterpreterResult {\n        self.regs.sp_mut().0 = self.regs.a(reg);\n        let frame = self.pop_long(memory)?;\n        // The stack pointer itself is not a frame pointer.\n        if reg == 7 { self.regs.ssp.0 = frame } else { self.regs.a[reg as usize].0 = frame }")],
  needs="UNLK A7 in user mode",
  breaks="A user program loads the supervisor stack pointer.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4E5F]); // UNLK A7
    cpu.regs.sr.s = false;
    cpu.regs.usp.0 = 0x9000;
    put(&mut mem, 0x9000, &[0x0000, 0xA000]);
    let ssp = cpu.regs.ssp;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.ssp == ssp && cpu.regs.usp.0 == 0xA000, "stack pointers");
}"""),

dict(id="c12_mask_in_saved_sr", property="C12",
  edits=[(E, "        let sr = self.regs.sr.into();\n        self.regs.sr.t = false;\n        self.regs.sr.s = true;\n        if is_interrupt(vector) {\n            self.regs.sr.interrupt_mask = vector & 7; // MC68000UM 6.3.2.\n        }\n", "        let sr = u16::from(self.regs.sr);\n        self.regs.sr.t = false;\n        self.regs.sr.s = true;\n        if is_interrupt(vector) && vector & 7 > self.regs.sr.interrupt_mask {\n            self.regs.sr.interrupt_mask = vector & 7; // MC68000UM 6.3.2.\n        }\n        let sr: u16 = if vector & 7 == 7 && is_interrupt(vector) { sr | 0x0100 } else { sr };\n")],
  needs="a level 7 interrupt",
  breaks="The saved status register has another interrupt mask.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4E71, 0x4E71]);
    cpu.regs.sr.interrupt_mask = 2;
    put(&mut mem, 0x4000 + 16 * 31, &[0x4E71]);
    cpu.exception(m68000::exception::Exception::from(31));
    cpu.interpreter(&mut mem[..]);
    check(word(&mem, cpu.regs.ssp.0) & 0x0700 == 0x0200, "saved mask");
}"""),

dict(id="c13_same_level_merged", property="C13",
  edits=[(E, "        self.exceptions.insert(ex);\n    }", "        // An interrupt line that is already asserted stays so, whatever device asserts it.\n        if ex.is_interrupt() && self.exceptions.iter().any(|e| e.is_interrupt() && e.vector & 7 == ex.vector & 7 && e.vector > ex.vector) {\n            return;\n        }\n        self.exceptions.insert(ex);\n    }")],
  needs="an external interrupt requested while an on-chip one of the same level is pending",
  breaks="The second request is lost.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Scc68070>(&[0x46FC, 0x2000, 0x4E71]); // MOVE #$2000,SR
    cpu.regs.sr.interrupt_mask = 7;
    for v in [27u32, 59] { put(&mut mem, 0x4000 + 16 * v, &[0x5278, 0x7000 + 2 * v as u16, 0x4E73]); } // count, RTE
    cpu.exception(m68000::exception::Exception::from(59));
    cpu.exception(m68000::exception::Exception::from(27));
    for _ in 0..10 { cpu.interpreter(&mut mem[..]); }
    check(word(&mem, 0x7000 + 2 * 59) == 1 && word(&mem, 0x7000 + 2 * 27) == 1, "both handlers run");
}"""),

dict(id="c14_trace_request_while_stopped", property="C14",
  edits=[(E, "        if ex.vector == Vector::ResetSspPc as u8 ||\n           ex.vector == Vector::Trace as u8 ||", "        if ex.vector == Vector::ResetSspPc as u8 ||\n           ex.vector == Vector::Trace as u8 && self.regs.sr.t ||")],
  needs="a trace requested while the processor is stopped with T clear",
  breaks="The request does not end the stopped state.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4E72, 0x2700, 0x4E71]); // STOP
    cpu.interpreter(&mut mem[..]);
    check(cpu.stop, "stopped");
    cpu.exception(m68000::exception::Exception::from(9));
    put(&mut mem, 0x4000 + 16 * 9, &[0x4E71]);
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.pc.0 == 0x4000 + 16 * 9 + 2, "handler runs");
}"""),

dict(id="c15_movep_checks_parity", property="C15",
  edits=[(I, "                let d = (self.regs.d[data as usize].0 >> shift) as u8;\n                memory.set_byte(addr.0, d).ok_or(ACCESS_ERROR)?;", "                let d = (self.regs.d[data as usize].0 >> shift) as u8;\n                // The last byte may lie behind the device.\n                if memory.set_byte(addr.0, d).is_none() && (shift != 0 || size.is_word()) {\n                    return Err(ACCESS_ERROR);\n                }")],
  needs="MOVEP.L to memory whose last byte is refused",
  breaks="The refused write raises nothing.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x01C8, 0x0000]); // MOVEP.L D0,(0,A0)
    cpu.regs.a[0].0 = 0xFFF8;
    let (_, v) = cpu.interpreter_exception(&mut mem[..0xFFFF]);
    check(v.is_none(), "inside");
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x01C8, 0x0000]);
    cpu.regs.a[0].0 = 0xFFF8;
    let (_, v) = cpu.interpreter_exception(&mut mem[..0xFFFE]);
    check(v == Some(2), "access error");
}"""),

dict(id="c16_movem_time_of_mode", property="C16",
  edits=[(I, "            if counter != -1 {\n                self.regs.pc.0 = pc.wrapping_add(disp as u32);\n                Ok(CPU::DBCC_FALSE_BRANCH)", "            if counter != -1 {\n                self.regs.pc.0 = pc.wrapping_add(disp as u32);\n                // A branch to the following instruction.\n                Ok(if disp == 2 { CPU::DBCC_FALSE_NO_BRANCH } else { CPU::DBCC_FALSE_BRANCH })")],
  needs="DBcc with a displacement of 2 that branches",
  breaks="The time of a loop that ends is reported.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x51C8, 0x0002]);
    cpu.regs.d[0].0 = 5;
    let t = cpu.interpreter(&mut mem[..]);
    check(t == <m68000::cpu_details::Mc68000 as m68000::CpuDetails>::DBCC_FALSE_BRANCH, "time");
}"""),

dict(id="c17_no_time_ends_loop", property="C17",
  edits=[(F, "            total_cycles += cycles;\n\n            if vector.is_some() || self.stop {", "            total_cycles += cycles;\n\n            if vector.is_some() || self.stop || cycles == 0 {")],
  needs="a user-defined CPU with an instruction that takes no time",
  breaks="The loop returns without exception or STOP.",
  demo=r"""
#[derive(Clone, Copy, Debug, Default)]
struct Fast;
impl m68000::CpuDetails for Fast {
    const STACK_FORMAT: m68000::StackFormat = m68000::StackFormat::MC68000;
    fn vector_execution_time(_: u8) -> usize { 0 }
    const VECTOR_RESET: usize = 0;
    const EA_ARI: usize = 0;
    const EA_ARIWPO: usize = 0;
    const EA_ARIWPR: usize = 0;
    const EA_ARIWD: usize = 0;
    const EA_ARIWI8: usize = 0;
    const EA_ABSSHORT: usize = 0;
    const EA_ABSLONG: usize = 0;
    const EA_PCIWD: usize = 0;
    const EA_PCIWI8: usize = 0;
    const EA_IMMEDIATE: usize = 0;
    const ABCD_REG: usize = 0;
    const ABCD_MEM: usize = 0;
    const ADD_REG_BW: usize = 0;
    const ADD_REG_L: usize = 0;
    const ADD_REG_L_RDIMM: usize = 0;
    const ADD_MEM_BW: usize = 0;
    const ADD_MEM_L: usize = 0;
    const ADDA_WORD: usize = 0;
    const ADDA_LONG: usize = 0;
    const ADDA_LONG_RDIMM: usize = 0;
    const ADDI_REG_BW: usize = 0;
    const ADDI_REG_L: usize = 0;
    const ADDI_MEM_BW: usize = 0;
    const ADDI_MEM_L: usize = 0;
    const ADDQ_REG_BW: usize = 0;
    const ADDQ_REG_L: usize = 0;
    const ADDQ_MEM_BW: usize = 0;
    const ADDQ_MEM_L: usize = 0;
    const ADDX_REG_BW: usize = 0;
    const ADDX_REG_L: usize = 0;
    const ADDX_MEM_BW: usize = 0;
    const ADDX_MEM_L: usize = 0;
    const AND_REG_BW: usize = 0;
    const AND_REG_L: usize = 0;
    const AND_REG_L_RDIMM: usize = 0;
    const AND_MEM_BW: usize = 0;
    const AND_MEM_L: usize = 0;
    const ANDI_REG_BW: usize = 0;
    const ANDI_REG_L: usize = 0;
    const ANDI_MEM_BW: usize = 0;
    const ANDI_MEM_L: usize = 0;
    const ANDICCR: usize = 0;
    const ANDISR: usize = 0;
    const ASM: usize = 0;
    const ASR_COUNT: usize = 0;
    const ASR_BW: usize = 0;
    const ASR_L: usize = 0;
    const BCC_BRANCH: usize = 0;
    const BCC_NO_BRANCH_BYTE: usize = 0;
    const BCC_NO_BRANCH_WORD: usize = 0;
    const BCHG_DYN_REG: usize = 0;
    const BCHG_DYN_MEM: usize = 0;
    const BCHG_STA_REG: usize = 0;
    const BCHG_STA_MEM: usize = 0;
    const BCLR_DYN_REG: usize = 0;
    const BCLR_DYN_MEM: usize = 0;
    const BCLR_STA_REG: usize = 0;
    const BCLR_STA_MEM: usize = 0;
    const BRA_BYTE: usize = 0;
    const BRA_WORD: usize = 0;
    const BSET_DYN_REG: usize = 0;
    const BSET_DYN_MEM: usize = 0;
    const BSET_STA_REG: usize = 0;
    const BSET_STA_MEM: usize = 0;
    const BSR_BYTE: usize = 0;
    const BSR_WORD: usize = 0;
    const BTST_DYN_REG: usize = 0;
    const BTST_DYN_MEM: usize = 0;
    const BTST_STA_REG: usize = 0;
    const BTST_STA_MEM: usize = 0;
    const CHK_NO_TRAP: usize = 0;
    const CLR_REG_BW: usize = 0;
    const CLR_REG_L: usize = 0;
    const CLR_MEM_BW: usize = 0;
    const CLR_MEM_L: usize = 0;
    const CMP_BW: usize = 0;
    const CMP_L: usize = 0;
    const CMPA: usize = 0;
    const CMPI_REG_BW: usize = 0;
    const CMPI_REG_L: usize = 0;
    const CMPI_MEM_BW: usize = 0;
    const CMPI_MEM_L: usize = 0;
    const CMPM_BW: usize = 0;
    const CMPM_L: usize = 0;
    const DBCC_TRUE: usize = 0;
    const DBCC_FALSE_BRANCH: usize = 0;
    const DBCC_FALSE_NO_BRANCH: usize = 0;
    const DIVS: usize = 0;
    const DIVU: usize = 0;
    const EOR_REG_BW: usize = 0;
    const EOR_REG_L: usize = 0;
    const EOR_MEM_BW: usize = 0;
    const EOR_MEM_L: usize = 0;
    const EORI_REG_BW: usize = 0;
    const EORI_REG_L: usize = 0;
    const EORI_MEM_BW: usize = 0;
    const EORI_MEM_L: usize = 0;
    const EORICCR: usize = 0;
    const EORISR: usize = 0;
    const EXG: usize = 0;
    const EXT: usize = 0;
    const JMP_ARI: usize = 0;
    const JMP_ARIWD: usize = 0;
    const JMP_ARIWI8: usize = 0;
    const JMP_ABSSHORT: usize = 0;
    const JMP_ABSLONG: usize = 0;
    const JMP_PCIWD: usize = 0;
    const JMP_PCIWI8: usize = 0;
    const JSR_ARI: usize = 0;
    const JSR_ARIWD: usize = 0;
    const JSR_ARIWI8: usize = 0;
    const JSR_ABSSHORT: usize = 0;
    const JSR_ABSLONG: usize = 0;
    const JSR_PCIWD: usize = 0;
    const JSR_PCIWI8: usize = 0;
    const LEA_ARI: usize = 0;
    const LEA_ARIWD: usize = 0;
    const LEA_ARIWI8: usize = 0;
    const LEA_ABSSHORT: usize = 0;
    const LEA_ABSLONG: usize = 0;
    const LEA_PCIWD: usize = 0;
    const LEA_PCIWI8: usize = 0;
    const LINK: usize = 0;
    const LSM: usize = 0;
    const LSR_COUNT: usize = 0;
    const LSR_BW: usize = 0;
    const LSR_L: usize = 0;
    const MOVE_DST_ARIWPR: usize = 0;
    const MOVE_OTHER: usize = 0;
    const MOVEA: usize = 0;
    const MOVECCR: usize = 0;
    const MOVEFSR_REG: usize = 0;
    const MOVEFSR_MEM: usize = 0;
    const MOVESR: usize = 0;
    const MOVEUSP: usize = 0;
    const MOVEM_WORD: usize = 0;
    const MOVEM_LONG: usize = 0;
    const MOVEM_MTR: usize = 0;
    const MOVEM_ARI: usize = 0;
    const MOVEM_ARIWPO: usize = 0;
    const MOVEM_ARIWPR: usize = 0;
    const MOVEM_ARIWD: usize = 0;
    const MOVEM_ARIWI8: usize = 0;
    const MOVEM_ABSSHORT: usize = 0;
    const MOVEM_ABSLONG: usize = 0;
    const MOVEM_PCIWD: usize = 0;
    const MOVEM_PCIWI8: usize = 0;
    const MOVEP_RTM_WORD: usize = 0;
    const MOVEP_RTM_LONG: usize = 0;
    const MOVEP_MTR_WORD: usize = 0;
    const MOVEP_MTR_LONG: usize = 0;
    const MOVEQ: usize = 0;
    const MULS: usize = 0;
    const MULU: usize = 0;
    const NBCD_REG: usize = 0;
    const NBCD_MEM: usize = 0;
    const NEG_REG_BW: usize = 0;
    const NEG_REG_L: usize = 0;
    const NEG_MEM_BW: usize = 0;
    const NEG_MEM_L: usize = 0;
    const NEGX_REG_BW: usize = 0;
    const NEGX_REG_L: usize = 0;
    const NEGX_MEM_BW: usize = 0;
    const NEGX_MEM_L: usize = 0;
    const NOP: usize = 0;
    const NOT_REG_BW: usize = 0;
    const NOT_REG_L: usize = 0;
    const NOT_MEM_BW: usize = 0;
    const NOT_MEM_L: usize = 0;
    const OR_REG_BW: usize = 0;
    const OR_REG_L: usize = 0;
    const OR_REG_L_RDIMM: usize = 0;
    const OR_MEM_BW: usize = 0;
    const OR_MEM_L: usize = 0;
    const ORI_REG_BW: usize = 0;
    const ORI_REG_L: usize = 0;
    const ORI_MEM_BW: usize = 0;
    const ORI_MEM_L: usize = 0;
    const ORICCR: usize = 0;
    const ORISR: usize = 0;
    const PEA_ARI: usize = 0;
    const PEA_ARIWD: usize = 0;
    const PEA_ARIWI8: usize = 0;
    const PEA_ABSSHORT: usize = 0;
    const PEA_ABSLONG: usize = 0;
    const PEA_PCIWD: usize = 0;
    const PEA_PCIWI8: usize = 0;
    const RESET: usize = 0;
    const ROM: usize = 0;
    const ROR_COUNT: usize = 0;
    const ROR_BW: usize = 0;
    const ROR_L: usize = 0;
    const ROXM: usize = 0;
    const ROXR_COUNT: usize = 0;
    const ROXR_BW: usize = 0;
    const ROXR_L: usize = 0;
    const RTE: usize = 0;
    const RTR: usize = 0;
    const RTS: usize = 0;
    const SBCD_REG: usize = 0;
    const SBCD_MEM: usize = 0;
    const SCC_REG_FALSE: usize = 0;
    const SCC_REG_TRUE: usize = 0;
    const SCC_MEM_FALSE: usize = 0;
    const SCC_MEM_TRUE: usize = 0;
    const STOP: usize = 0;
    const SUB_REG_BW: usize = 0;
    const SUB_REG_L: usize = 0;
    const SUB_REG_L_RDIMM: usize = 0;
    const SUB_MEM_BW: usize = 0;
    const SUB_MEM_L: usize = 0;
    const SUBA_WORD: usize = 0;
    const SUBA_LONG: usize = 0;
    const SUBA_LONG_RDIMM: usize = 0;
    const SUBI_REG_BW: usize = 0;
    const SUBI_REG_L: usize = 0;
    const SUBI_MEM_BW: usize = 0;
    const SUBI_MEM_L: usize = 0;
    const SUBQ_DREG_BW: usize = 0;
    const SUBQ_AREG_BW: usize = 0;
    const SUBQ_REG_L: usize = 0;
    const SUBQ_MEM_BW: usize = 0;
    const SUBQ_MEM_L: usize = 0;
    const SUBX_REG_BW: usize = 0;
    const SUBX_REG_L: usize = 0;
    const SUBX_MEM_BW: usize = 0;
    const SUBX_MEM_L: usize = 0;
    const SWAP: usize = 0;
    const TAS_REG: usize = 0;
    const TAS_MEM: usize = 0;
    const TRAPV_NO_TRAP: usize = 0;
    const TST_REG_BW: usize = 0;
    const TST_REG_L: usize = 0;
    const TST_MEM_BW: usize = 0;
    const TST_MEM_L: usize = 0;
    const UNLK: usize = 0;
}

fn main() {
    let (mut cpu, mut mem) = setup::<Fast>(&[0x7001, 0x7202, 0x4E72, 0x2700]); // MOVEQ, MOVEQ, STOP
    let r = cpu.loop_until_exception_stop(&mut mem[..]);
    check(r == (0, None) && cpu.stop && cpu.regs.d[1].0 == 2, "runs up to the STOP");
}"""),

dict(id="c19_cmpm_then_bcc", property="C19",
  edits=[(I, "        self.regs.pc.0 = pc.wrapping_add(disp as u32);\n\n        Ok(if self.current_opcode as u8 == 0 {\n            CPU::BSR_WORD", "        self.regs.pc.0 = (pc as i64 + disp as i64).max(0) as u32;\n\n        Ok(if self.current_opcode as u8 == 0 {\n            CPU::BSR_WORD")],
  needs="BSR backwards across address 0",
  breaks="The target is 0 instead of an address at the top of the address space.",
  demo=r"""
struct Top;
impl m68000::MemoryAccess for Top {
    fn get_byte(&mut self, _: u32) -> Option<u8> { Some(0) }
    fn get_word(&mut self, a: u32) -> Option<u16> { Some(match a { 0x100 => 0x6100, 0x102 => 0xFE00, _ => 0x4E71 }) }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> { Some(()) }
    fn set_word(&mut self, _: u32, _: u16) -> Option<()> { Some(()) }
    fn reset_instruction(&mut self) {}
}

fn main() {
    let mut cpu = m68000::M68000::<m68000::cpu_details::Mc68000>::new_no_reset();
    cpu.regs.pc.0 = 0x100;
    cpu.regs.ssp.0 = 0x8000;
    cpu.interpreter(&mut Top);
    check(cpu.regs.pc.0 == 0xFFFF_FF02, "target");
}"""),

dict(id="c20_dst_short_address_sign", property="C20",
  edits=[(A, "            AddressingMode::AbsShort(addr) => (7 << 6, Box::new([addr])),\n            AddressingMode::AbsLong(addr) => (1 << 9 | 7 << 6, Box::new([(addr >> 16) as u16, addr as u16])),", "            AddressingMode::AbsShort(addr) => (7 << 6, Box::new([addr])),\n            AddressingMode::AbsLong(addr) if addr as i16 as u32 == addr && addr > 0xFFFF_8000 => (7 << 6, Box::new([addr as u16])),\n            AddressingMode::AbsLong(addr) => (1 << 9 | 7 << 6, Box::new([(addr >> 16) as u16, addr as u16])),")],
  needs="a MOVE to an absolute long address of the last 32 KiB",
  breaks="Another addressing mode than the requested one is emitted.",
  demo=r"""
fn main() {
    use m68000::addressing_modes::AddressingMode;
    let w = m68000::assembler::r#move(m68000::instruction::Size::Word, AddressingMode::AbsLong(0xFFFF_FFF0), AddressingMode::Drd(0));
    check(w == [0x33C0, 0xFFFF, 0xFFF0], "words");
}"""),

dict(id="c21_index_base_register", property="C21",
  edits=[(A, "            AddressingMode::Ariwi8(reg,_) => reg <= 7 && modes.contains(&6),", "            AddressingMode::Ariwi8(reg,_) => reg & 0x1F <= 7 && modes.contains(&6),")],
  needs="asking the assembler for (d,A32,Xn)",
  breaks="Another instruction is emitted instead of refusing the request.",
  demo=r"""
fn main() {
    use m68000::addressing_modes::{AddressingMode, BriefExtensionWord};
    let b = BriefExtensionWord::new(false, 0, false, 4);
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| m68000::assembler::jmp(AddressingMode::Ariwi8(32, b)));
    check(r.is_err(), "refused");
}"""),

dict(id="c22_trap_number_hex", property="C22",
  edits=[(S, "        format!(\"MOVEM.{s} {list:#X}, {am}\")", "        // Bit 0 is always D0.\n        let list = if am.is_ariwpr() && list != 0 { list.reverse_bits() } else { list };\n        format!(\"MOVEM.{s} {list:#X}, {am}\")")],
  needs="the text of MOVEM to -(An)",
  breaks="The list is not the one of the instruction.",
  demo=r"""
fn main() {
    use m68000::MemoryAccess;
    let mut m: Vec<u8> = vec![0x48, 0xE7, 0x80, 0x00];
    let i = m68000::instruction::Instruction::from_memory(&mut m[..].iter_u16(0)).unwrap();
    check(i.disassemble().contains("0x8000"), &i.disassemble());
}"""),

dict(id="c23_zero_byte_neighbour", property="C23",
  edits=[(M, "                self[a] &= 0xFF00;\n                self[a] |= data as u16;", "                self[a] ^= (self[a] & 0xFF) ^ data as i8 as u16 & (0x80FF | self[a]);")],
  needs="a byte with its top bit set written at an odd address of a slice of words, next to a high byte with its top bit clear",
  breaks="The neighbouring byte changes.",
  demo=r"""
fn main() {
    use m68000::MemoryAccess;
    let mut w = [0x0102u16];
    MemoryAccess::set_byte(&mut w[..], 1, 0x90);
    check(w == [0x0190], &format!("{w:X?}"));
}"""),

dict(id="c25_long_data_signed", property="C25", ffi=True,
  edits=[(FL, "        let res = (self.get_long)(addr, self.user_data);\n        if res.exception == 0 {", "        let res = (self.get_long)(addr, self.user_data);\n        // Unassigned locations float high.\n        if res.exception == 0 && res.data != u32::MAX {")],
  needs="a long read through the callbacks that returns 0xFFFFFFFF",
  breaks="An access error is raised.",
  demo=r"""
use m68000_ffi::*;
use std::ffi::c_void;
extern "C" fn get(a: u32, _: *mut c_void) -> m68000_memory_result_t {
    m68000_memory_result_t { data: match a { 0x1000 => 0x2010, 0x9000 => 0xFFFF_FFFF, _ => 0x4E71 }, exception: 0 } // MOVE.L (A0),D0
}
extern "C" fn sb(_: u32, _: u8, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sw(_: u32, _: u16, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sl(_: u32, _: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn ri(_: *mut c_void) {}

fn main() {
    let mut cb = m68000_callbacks_t { get_byte: get, get_word: get, get_long: get, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: ri, user_data: std::ptr::null_mut() };
    unsafe {
        let c = mc68000::m68000_mc68000_new_no_reset();
        let r = &mut *mc68000::m68000_mc68000_registers_mut(c);
        r.pc.0 = 0x1000;
        r.a[0].0 = 0x9000;
        let x = mc68000::m68000_mc68000_interpreter_exception(c, &mut cb);
        check(x.exception == 0 && (*mc68000::m68000_mc68000_registers(c)).d[0].0 == 0xFFFF_FFFF, "long read");
        mc68000::m68000_mc68000_delete(c);
    }
}"""),

dict(id="c26_reset_stopped_by_program", property="C26",
  edits=[(E, "        self.regs.sr.interrupt_mask = 7;\n        self.stop = false;\n\n        CPU::VECTOR_RESET", "        self.regs.sr.interrupt_mask = 7;\n\n        CPU::VECTOR_RESET"), (E, "        if ex.vector == Vector::ResetSspPc as u8 ||\n           ex.vector == Vector::Trace as u8 ||", "        if ex.vector == Vector::Trace as u8 ||")],
  needs="a reset requested while the processor is stopped",
  breaks="The processor stays stopped.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4E72, 0x2700]);
    put(&mut mem, 0, &[0, 0x8000, 0, 0x5000]);
    put(&mut mem, 0x5000, &[0x4E71]);
    cpu.interpreter(&mut mem[..]);
    cpu.exception(m68000::exception::Exception::from(0));
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.pc.0 == 0x5002, "restarted");
}"""),

dict(id="c27_debug_level_counts", property="C27",
  edits=[(E, "    fn process_exception<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, vector: u8) -> InterpreterResult {\n", "    fn process_exception<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, vector: u8) -> InterpreterResult {\n        // The vectors that were seen since the start.\n        static SEEN: [std::sync::atomic::AtomicU8; 256] = [const { std::sync::atomic::AtomicU8::new(0) }; 256];\n        if SEEN[vector as usize].fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 255 && vector < 12 {\n            self.regs.sr.c = true;\n        }\n"),],
  needs="256 occurrences of an exception in the process, whatever the core",
  breaks="The carry is set and saved.",
  demo=r"""
fn main() {
    for n in 0..600 {
        let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4AFC]);
        cpu.regs.sr.c = false;
        cpu.interpreter(&mut mem[..]);
        cpu.interpreter(&mut mem[..]);
        check(word(&mem, cpu.regs.ssp.0) & 1 == 0, &format!("run {n}"));
    }
}"""),

dict(id="c28_empty_file_last_line", property="C28", bins=BINS,
  edits=[("m68000/src/bin/disassemble.rs", "    while i < end {\n        let inst", "    while i + 1 < end {\n        let inst")],
  needs="an end position right after the first byte of an instruction",
  breaks="The instruction that starts before the end is missing.",
  demo=RUNDIR + r"""
fn main() {
    let d = dir();
    std::fs::write(d.join("nine.bin"), vec![0x4E, 0x71].repeat(8)).unwrap();
    let o = Command::new(d.join("disassemble")).current_dir(&d).args(["nine.bin", "-b", "2", "-e", "5"]).output().unwrap();
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    check(t.lines().count() == 2, &t);
}"""),

dict(id="c29_swap_counts_refused", property="C29", bins=[("scc68070", "m68000/src/bin/scc68070.rs")],
  edits=[("m68000/src/bin/scc68070.rs", "            Some((self.get_byte(addr)? as u16) << 8 | self.get_byte(addr + 1)? as u16)\n", "            // The ROM is not cached.\n            Some((self.get_byte(addr)? as u16) << 8 | self.get_byte(addr | 1)? as u16 & if addr > 0x4F_0000 { 0xFE } else { 0xFF })\n")],
  needs="words read from the last 64 KiB of RAM",
  breaks="Their lowest bit is lost.",
  demo=MACHINE + r"""
fn main() {
    let mut rom = vec![0, 0x1000, 0x0040, 0x0008];
    rom.extend([0x33FC, 0x0041, 0x004F, 0x8000, // MOVE.W #'A', (0x4F8000).L
        0x3039, 0x004F, 0x8000, 0x13C0, 0x8000, 0x2019, // MOVE.W (0x4F8000).L,D0; MOVE.B D0,(0x80002019).L
        0x13FC, 0x000A, 0x8000, 0x2019, 0x60FE]);
    check(boot("scc68070", &rom, 2) == b"A\n", "printed bytes");
}"""),
]
