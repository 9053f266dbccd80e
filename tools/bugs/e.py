# Fifth round: hidden state, shortcuts, orders of evaluation, widths.
I = "m68000/src/interpreter.rs"
F = "m68000/src/interpreter_fast.rs"
D = "m68000/src/interpreter_disassembler.rs"
E = "m68000/src/exception.rs"
A = "m68000/src/addressing_modes.rs"
N = "m68000/src/instruction.rs"
X = "m68000/src/assembler.rs"
S = "m68000/src/disassembler.rs"
M = "m68000/src/memory_access.rs"
R = "m68000/src/status_register.rs"
L = "m68000/src/lib.rs"
U = "m68000/src/utils.rs"
FL = "m68000-ffi/src/lib.rs"
BINS = [("disassemble", "m68000/src/bin/disassemble.rs")]
RUNDIR = r'''
use std::path::PathBuf;
use std::process::{Command, Stdio};

/// The folder of this executable, where the programs of the project are built too, and where files may be written.
fn dir() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

fn setup() {}

fn check(ok: bool, what: &str) {
    if !ok {
        println!("WRONG: {what}");
        std::process::exit(1);
    }
}
'''

MACHINE = RUNDIR + r'''
/// Boots the example machine with the given words at the start of the ROM and returns the first `n` bytes it prints.
fn boot(program: &str, rom: &[u16], n: usize) -> Vec<u8> {
    use std::io::Read;
    let d = dir();
    let bytes: Vec<u8> = rom.iter().flat_map(|w| w.to_be_bytes()).collect();
    std::fs::write(d.join("cpudiag40.rom"), bytes).unwrap();
    let mut child = Command::new(d.join(program)).current_dir(&d).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut out = child.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut b = vec![0; n];
        let mut got = 0;
        while got < n {
            match out.read(&mut b[got..]) {
                Ok(0) | Err(_) => break,
                Ok(k) => got += k,
            }
        }
        b.truncate(got);
        let _ = tx.send(b);
    });
    let r = rx.recv_timeout(std::time::Duration::from_secs(30)).unwrap_or_default();
    let _ = child.kill();
    let _ = child.wait();
    r
}
'''

BUGS = [
dict(id="c03_adda_destination_read_first", property="C03",
  edits=[(I, """        let mut ea = EffectiveAddress::new(am, Some(size));

        let src = if size.is_word() {
            exec_time = CPU::ADDA_WORD;""", """        let mut ea = EffectiveAddress::new(am, Some(size));
        let dst = self.regs.a(reg);

        let src = if size.is_word() {
            exec_time = CPU::ADDA_WORD;"""),
         (I, """        *self.regs.a_mut(reg) += src;

        Ok(exec_time)""", """        self.regs.a_mut(reg).0 = dst.wrapping_add(src);

        Ok(exec_time)""")],
  needs="ADDA whose source postincrements or predecrements its destination register",
  breaks="The increment of the address register is lost.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xD0D8]); // ADDA.W (A0)+, A0
    put(&mut mem, 0x2000, &[0x0010]);
    cpu.regs.a[0].0 = 0x2000;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.a[0].0 == 0x2012, "A0 is incremented, then added to");
}'''),

dict(id="c04_muls_sign_of_zero", property="C04",
  edits=[(I, "        let res = src.wrapping_mul(dst);\n        self.regs.d[reg as usize].0 = res as u32;\n\n        self.regs.sr.n = res < 0;", "        let res = src.wrapping_mul(dst);\n        self.regs.d[reg as usize].0 = res as u32;\n\n        self.regs.sr.n = (src < 0) != (dst < 0);")],
  needs="MULS of a negative number by zero",
  breaks="N is set for a zero product.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xC1C1]); // MULS D1, D0
    cpu.regs.d[0].0 = 0xFFFF;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.sr.z && !cpu.regs.sr.n, "flags of zero");
}'''),

dict(id="c05_nbcd_zero_shortcut", property="C05",
  edits=[(I, "        let res = self.sbcd(0, src);\n", "        if src == 0 {\n            // Nothing to negate.\n            self.regs.sr.x = false;\n            self.regs.sr.c = false;\n            return Ok(exec_time);\n        }\n\n        let res = self.sbcd(0, src & 0xFF);\n")],
  needs="NBCD of zero with X set",
  breaks="The borrow of the lower digits is ignored.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4800]); // NBCD D0
    cpu.regs.sr.x = true;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.d[0].0 == 0x99 && cpu.regs.sr.x && cpu.regs.sr.c, "0 - 0 - 1 = 99 with borrow");
}'''),

dict(id="c07_asl_long_stops_at_zero", property="C07",
  edits=[(I, """                let sign = data & mask;
                data <<= 1;
                self.regs.sr.x = sign != 0;
                self.regs.sr.c = sign != 0;
                if sign ^""", """                let sign = data & mask;
                if data == 0 {
                    break; // Only zeroes are left to be shifted out.
                }
                data <<= 1;
                self.regs.sr.x = sign != 0;
                self.regs.sr.c = sign != 0;
                if sign ^""")],
  needs="ASL.L by more than needed to shift the lowest set bit out",
  breaks="C and X keep the last one bit shifted out.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xE580]); // ASL.L #2, D0
    cpu.regs.d[0].0 = 0x8000_0000;
    cpu.interpreter(&mut mem[..]);
    check(!cpu.regs.sr.c && !cpu.regs.sr.x && cpu.regs.sr.z && cpu.regs.sr.v, "a zero is shifted out last");
}'''),

dict(id="c09_scaled_index", property="C09",
  edits=[(A, """            if long {
                self.regs.d[reg as usize].0
            } else {""", """            if long {
                self.regs.d[reg as usize].0 << bits(bew.0, 9, 10)
            } else {""")],
  needs="a long data register index in an extension word whose bits 9 and 10 are not zero",
  breaks="The index is scaled as on the 68020.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x41F1, 0x2A00]); // LEA (0, A1, D2.L), A0
    cpu.regs.a[1].0 = 0x2000;
    cpu.regs.d[2].0 = 0x10;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.a[0].0 == 0x2010, "no scaling");
}'''),

dict(id="c10_jsr_address_after_push", property="C10",
  edits=[(I, """        let addr = self.get_effective_address(&mut ea, &mut exec_time);
        self.push_long(memory, self.regs.pc.0)?;
        self.regs.pc.0 = addr;""", """        self.push_long(memory, self.regs.pc.0)?;
        self.regs.pc.0 = self.get_effective_address(&mut ea, &mut exec_time);""")],
  needs="JSR through the stack pointer",
  breaks="The target is computed from the decremented stack pointer.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4EAF, 0x0010]); // JSR (16, A7)
    cpu.regs.ssp.0 = 0x8000;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.pc.0 == 0x8010, "target from the stack pointer before the push");
}'''),

dict(id="c10_jmp_24_bits", property="C10",
  edits=[(I, """        let mut exec_time = 0;
        self.regs.pc.0 = self.get_effective_address(&mut ea, &mut exec_time);

        Ok(match am {
            AddressingMode::Ari(_) => CPU::JMP_ARI,""", """        let mut exec_time = 0;
        self.regs.pc.0 = self.get_effective_address(&mut ea, &mut exec_time) & 0x00FF_FFFF;

        Ok(match am {
            AddressingMode::Ari(_) => CPU::JMP_ARI,""")],
  needs="JMP to an address with one of the bits 24 to 31 set",
  breaks="The target loses these bits.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4ED0]); // JMP (A0)
    cpu.regs.a[0].0 = 0x1234_5678;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.pc.0 == 0x1234_5678, "32-bit target");
}'''),

dict(id="c11_reset_before_check", property="C11",
  edits=[(I, """        self.check_supervisor()?;

        memory.reset_instruction();
        Ok(CPU::RESET)""", """        memory.reset_instruction();

        self.check_supervisor()?;
        Ok(CPU::RESET)""")],
  needs="RESET in user mode",
  breaks="User code resets the devices before the privilege violation.",
  demo=r'''
struct Bus(Vec<u8>, u32);
impl MemoryAccess for Bus {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.0[..].get_byte(a) }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.0[..].get_word(a) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.0[..].set_byte(a, v) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.0[..].set_word(a, v) }
    fn reset_instruction(&mut self) { self.1 += 1; }
}
fn main() {
    let (mut cpu, mem) = setup::<Mc68000>(&[0x4E70]); // RESET
    cpu.regs.sr.s = false;
    let mut bus = Bus(mem, 0);
    let (_, v) = cpu.interpreter_exception(&mut bus);
    check(v == Some(8) && bus.1 == 0, "privilege violation without a reset");
}'''),

dict(id="c12_frames_share_sr", property="C12",
  edits=[(E, """        let exceptions: BTreeSet<_> = to_process.into_iter().collect();
""", """        let exceptions: BTreeSet<_> = to_process.into_iter().collect();
        let sr = self.regs.sr.into();
"""),
         (E, "            total += match self.process_exception(memory, exception.vector) {", "            total += match self.process_exception(memory, exception.vector, sr) {"),
         (E, """    fn process_exception<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, vector: u8) -> InterpreterResult {
        let sr = self.regs.sr.into();
""", """    fn process_exception<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, vector: u8, sr: u16) -> InterpreterResult {
""")],
  needs="two exceptions processed in the same step",
  breaks="The frame of the second one saves the status register from before the first one.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71]);
    cpu.regs.sr = 0x2000.into();
    cpu.regs.ssp.0 = 0x8000;
    cpu.exception(Exception::from(27));
    cpu.exception(Exception::from(30));
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.ssp.0 == 0x8000 - 12, "two frames");
    check(word(&mem, 0x8000 - 6) == 0x2000 && word(&mem, 0x8000 - 12) == 0x2300, "status registers of the frames");
}'''),

dict(id="c13_reset_instruction_clears_pending", property="C13",
  edits=[(I, """        memory.reset_instruction();
        Ok(CPU::RESET)""", """        memory.reset_instruction();
        self.clear_pending();
        Ok(CPU::RESET)"""),
         (E, """    /// Resets the CPU by fetching the reset vectors.
    fn reset<""", """    /// Forgets the pending exceptions.
    pub(super) fn clear_pending(&mut self) {
        self.exceptions.clear();
    }

    /// Resets the CPU by fetching its reset vectors.
    fn reset<"""),
         (I, """        self.check_supervisor()?;

        memory.reset_instruction();""", """        if let Err(e) = self.check_supervisor() { return Err(e); }

        memory.reset_instruction();""")],
  needs="a RESET instruction while a masked interrupt is pending",
  breaks="The RESET instruction drops pending interrupts.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E70, 0x46FC, 0x2000, 0x4E71, 0x4E71]); // RESET, MOVE #$2000, SR, NOP
    cpu.regs.sr = 0x2700.into();
    cpu.exception(Exception::from(27));
    for _ in 0..3 { cpu.interpreter(&mut mem[..]); }
    check(cpu.regs.sr.interrupt_mask == 3, "the interrupt is taken when it is no longer masked");
}'''),

dict(id="c14_handler_first_instruction_traced", property="C14",
  edits=[(F, """        let mut cycle_count = 0;

        if !self.exceptions.is_empty() {""", """        let mut cycle_count = 0;
        let trace = self.regs.sr.t;

        if !self.exceptions.is_empty() {"""),
         (F, "        let trace = self.regs.sr.t;\n        let exception = match", "        let exception = match")],
  needs="an exception taken while T is set",
  breaks="The first instruction of the handler is traced.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71]);
    cpu.regs.sr = 0xA000.into();
    cpu.regs.ssp.0 = 0x8000;
    put(&mut mem, 0x4000 + 16 * 27, &[0x4E71]);
    cpu.exception(Exception::from(27));
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v.is_none() && !cpu.regs.sr.t, "the handler is not traced");
}'''),

dict(id="c15_peek_odd", property="C15",
  edits=[(M, "        memory.get_word(self.regs.pc.even()?.0).ok_or(ACCESS_ERROR)\n    }", "        memory.get_word(self.regs.pc.0).ok_or(ACCESS_ERROR)\n    }")],
  needs="peek_next_word with an odd program counter",
  breaks="The memory system receives an odd word access and no address error is reported.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E71, 0x4E71]);
    cpu.regs.pc.0 = CODE + 1;
    check(cpu.peek_next_word(&mut mem[..]) == Err(3), "address error");
}'''),

dict(id="c16_lsr_time_raw_count", property="C16",
  edits=[(I, """            Size::Word => {
                self.regs.d_word(reg, data as u16);
                self.regs.sr.z = data & 0x0000_FFFF == 0;
                CPU::LSR_BW + CPU::LSR_COUNT * shift_count as usize""", """            Size::Word => {
                self.regs.d_word(reg, data as u16);
                self.regs.sr.z = data & 0x0000_FFFF == 0;
                CPU::LSR_BW + CPU::LSR_COUNT * shift_count.min(16) as usize""")],
  needs="LSL.W or LSR.W by a register count above 16",
  breaks="The time counts at most 16 shifted bits.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0xE268]); // LSR.W D1, D0
    cpu.regs.d[1].0 = 20;
    check(cpu.interpreter(&mut mem[..]) == 6 + 2 * 20, "6 + 2n");
}'''),

dict(id="c19_rte_drops_masked", property="C19",
  edits=[(I, """        self.regs.sr = sr.into();

        Ok(exec_time)
    }

    pub(super) fn execute_rtr""", """        self.regs.sr = sr.into();
        self.forget_masked();

        Ok(exec_time)
    }

    pub(super) fn execute_rtr"""),
         (I, "        let mut exec_time = CPU::RTE;\n", "        let mut exec_time: usize = CPU::RTE;\n"),
         (E, """    /// Resets the CPU by fetching the reset vectors.
    fn reset<""", """    /// Forgets the interrupts of the level that has just been handled.
    pub(super) fn forget_masked(&mut self) {
        let mask = self.regs.sr.interrupt_mask;
        self.exceptions.retain(|ex| !ex.is_interrupt() || ex.vector & 7 != mask || mask == 7);
    }

    /// Resets the CPU by fetching the reset vectors.
    fn reset<""")],
  needs="an interrupt of the level of the restored mask pending at an RTE",
  breaks="The pending interrupt is lost.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E73]); // RTE
    put(&mut mem, 0x8000, &[0x2300, 0, 0x2000]);
    put(&mut mem, 0x2000, &[0x46FC, 0x2000, 0x4E71]); // MOVE #$2000, SR
    cpu.regs.sr = 0x2700.into();
    cpu.regs.ssp.0 = 0x8000;
    cpu.exception(Exception::from(27));
    for _ in 0..3 { cpu.interpreter(&mut mem[..]); }
    check(cpu.regs.sr.interrupt_mask == 3, "the interrupt is taken when it is no longer masked");
}'''),

dict(id="c20_link_minimum", property="C20",
  edits=[(X, "    [0b0100_1110_0101_0 << 3 | reg as u16 & 7, disp as u16]\n", "    let frame = disp.saturating_neg();\n    [0b0100_1110_0101_0 << 3 | reg as u16 & 7, (-frame) as u16]\n")],
  needs="a LINK displacement of -32768",
  breaks="The assembled displacement is -32767.",
  demo=r'''
fn main() {
    check(m68000::assembler::link(3, i16::MIN) == [0x4E53, 0x8000], "displacement as asked for");
}'''),

dict(id="c22_branch_text_memo", property="C22",
  edits=[(S, """pub fn disassemble_bra(inst: &Instruction) -> String {
    let disp = inst.operands.displacement();
    format!("BRA {disp} <{:#X}>", inst.pc.wrapping_add(2).wrapping_add(disp as u32))
}""", """pub fn disassemble_bra(inst: &Instruction) -> String {
    let disp = inst.operands.displacement();
    thread_local!(static LAST: std::cell::RefCell<(u16, i16, String)> = std::cell::RefCell::default());
    LAST.with_borrow_mut(|(opcode, d, text)| {
        if *opcode != inst.opcode || *d != disp {
            (*opcode, *d) = (inst.opcode, disp);
            *text = format!("BRA {disp} <{:#X}>", inst.pc.wrapping_add(2).wrapping_add(disp as u32));
        }
        text.clone()
    })
}""")],
  needs="the same BRA disassembled at two addresses in a row",
  breaks="The second text shows the target of the first.",
  demo=r'''
fn main() {
    let mut mem = vec![0x6010u16, 0x6010];
    let m = &mut mem[..];
    let a = Instruction::from_memory(&mut m.iter_u16(0)).unwrap().disassemble();
    let b = Instruction::from_memory(&mut m.iter_u16(2)).unwrap().disassemble();
    check(a == "BRA 16 <0x12>" && b == "BRA 16 <0x14>", &b);
}'''),

dict(id="c23_iterator_saturates", property="C23",
  edits=[(M, "            self.next_addr = self.next_addr.wrapping_add(2);", "            self.next_addr = self.next_addr.saturating_add(2);")],
  needs="an iterator that reaches the last word of the address space",
  breaks="It does not continue at address 0.",
  demo=r'''
struct Any;
impl MemoryAccess for Any {
    fn get_byte(&mut self, a: u32) -> Option<u8> { Some(a as u8) }
    fn get_word(&mut self, a: u32) -> Option<u16> { Some(a as u16) }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> { None }
    fn set_word(&mut self, _: u32, _: u16) -> Option<()> { None }
    fn reset_instruction(&mut self) {}
}
fn main() {
    let mut any = Any;
    let mut i = any.iter_u16(0xFFFF_FFFE);
    check(i.next() == Some(Ok(0xFFFE)) && i.next() == Some(Ok(0)) && i.next() == Some(Ok(2)), "consecutive words");
}'''),

dict(id="c24_bits_full_width", property="C24",
  edits=[(U, "    let mask = ((1u32 << (end + 1 - beg)) - 1) as u16;\n", "    let mask = 1u16.wrapping_shl((end + 1 - beg) as u32).wrapping_sub(1);\n")],
  needs="all the 16 bits of a word",
  breaks="The whole word is reported as zero.",
  demo=r'''
fn main() {
    check(m68000::utils::bits(0xABCD, 0, 15) == 0xABCD && m68000::utils::bits(0xABCD, 4, 7) == 0xC, "bits");
}
'''),

dict(id="c25_cycles_32_bits", property="C25", ffi=True,
  edits=[(FL, "                    (*m68000).cycle(&mut *memory, cycles)\n", "                    (*m68000).cycle(&mut *memory, cycles as u32 as usize)\n")],
  needs="a budget of 2^32 cycles or more",
  breaks="Only the low 32 bits of the budget are used.",
  demo=r'''
use m68000_ffi::*;
use std::ffi::c_void;
extern "C" fn get(a: u32, _: *mut c_void) -> m68000_memory_result_t {
    m68000_memory_result_t { data: if a == 0x1000 { 0x4E72 } else { 0x2700 }, exception: 0 } // STOP #$2700
}
extern "C" fn sb(_: u32, _: u8, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sw(_: u32, _: u16, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sl(_: u32, _: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn ri(_: *mut c_void) {}

fn main() {
    let mut cb = m68000_callbacks_t { get_byte: get, get_word: get, get_long: get, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: ri, user_data: std::ptr::null_mut() };
    unsafe {
        let c = mc68000::m68000_mc68000_new_no_reset();
        (*mc68000::m68000_mc68000_registers_mut(c)).pc.0 = 0x1000;
        check(mc68000::m68000_mc68000_cycle(c, &mut cb, (1 << 32) + 7) == (1 << 32) + 7, "cycles of a stopped core");
        mc68000::m68000_mc68000_delete(c);
    }
}'''),

dict(id="c26_reset_aligns_stack", property="C26",
  edits=[(E, '        self.regs.ssp.0 = memory.get_long(0).expect("An exception occured when reading initial SSP.");', '        self.regs.ssp.0 = memory.get_long(0).expect("An exception occured when reading initial SSP.") & !1;')],
  needs="an odd initial stack pointer",
  breaks="The stack pointer is not the one of the reset vector.",
  demo=r'''
fn main() {
    let (_, mut mem) = setup::<Mc68000>(&[0x4E71]);
    put(&mut mem, 0, &[0, 0x8001, 0, CODE as u16]);
    let mut cpu = M68000::<Mc68000>::new();
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.ssp.0 == 0x8001, "stack pointer of the vector");
}'''),

dict(id="c27_clone_forgets_opcode", property="C27",
  edits=[(L, "#[derive(Clone, Debug)]\npub struct M68000<CPU: CpuDetails> {", "#[derive(Debug)]\npub struct M68000<CPU: CpuDetails> {"),
         (L, "impl<CPU: CpuDetails> M68000<CPU> {\n    /// Creates a new M68000 core.", """impl<CPU: CpuDetails> Clone for M68000<CPU> {
    fn clone(&self) -> Self {
        Self {
            regs: self.regs,
            stop: self.stop,
            exceptions: self.exceptions.clone(),
            ..Self::new_no_reset()
        }
    }
}

impl<CPU: CpuDetails> M68000<CPU> {
    /// Creates a new M68000 core.""")],
  needs="a core cloned between a bus or address error and its processing",
  breaks="The frame of the clone does not hold the opcode.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x3010]); // MOVE.W (A0), D0
    cpu.regs.ssp.0 = 0x8000;
    cpu.regs.a[0].0 = 0x2001;
    cpu.interpreter(&mut mem[..]);
    let mut other = cpu.clone();
    let mut mem2 = mem.clone();
    cpu.interpreter(&mut mem[..]);
    other.interpreter(&mut mem2[..]);
    check(mem == mem2 && cpu.regs == other.regs, "the clone writes the same frame");
}'''),

dict(id="c28_end_rounded", property="C28", bins=BINS,
  edits=[("m68000/src/bin/disassemble.rs", "    if end > filelen {\n        end = filelen\n    };\n", "    end = end.min(filelen) & !1;\n")],
  needs="an odd end position",
  breaks="The instruction that starts right before the end is missing.",
  demo=RUNDIR + r'''
fn main() {
    let d = dir();
    std::fs::write(d.join("odd.bin"), vec![0x4E, 0x71].repeat(8)).unwrap();
    let o = Command::new(d.join("disassemble")).current_dir(&d).args(["odd.bin", "-e", "5"]).output().unwrap();
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    check(t.lines().count() == 3, &t);
}'''),

dict(id="c29_ram_last_byte", property="C29", bins=[("scc68070", "m68000/src/bin/scc68070.rs")],
  edits=[("m68000/src/bin/scc68070.rs", "            addr if (addr as usize) < self.ram.len() => {\n                self.ram[addr as usize] = value;", "            addr if (addr as usize) < self.ram.len() - 1 => {\n                self.ram[addr as usize] = value;")],
  needs="a write to the last byte of RAM",
  breaks="The last byte of RAM cannot be written.",
  demo=MACHINE + r'''
fn main() {
    let mut rom = vec![0, 0x1000, 0x0040, 0x0008];
    rom.extend([0x13FC, 0x0041, 0x004F, 0xFFFF, // MOVE.B #'A', (0x4FFFFF).L
        0x13F9, 0x004F, 0xFFFF, 0x8000, 0x2019, // MOVE.B (0x4FFFFF).L, (0x80002019).L
        0x13FC, 0x000A, 0x8000, 0x2019, 0x60FE]);
    check(boot("scc68070", &rom, 2) == b"A\n", "printed bytes");
}'''),

]
