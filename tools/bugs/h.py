# Eighth round: rare operands, failing entries, texts.
I = "m68000/src/interpreter.rs"
D = "m68000/src/interpreter_disassembler.rs"
E = "m68000/src/exception.rs"
A = "m68000/src/addressing_modes.rs"
X = "m68000/src/assembler.rs"
S = "m68000/src/disassembler.rs"
M = "m68000/src/memory_access.rs"
FL = "m68000-ffi/src/lib.rs"
BUGS = [
dict(id="c18_text_memo", property="C18",
  edits=[(D, "        let dis = instruction.disassemble();\n        let trace", """        // Loops show the same line again and again.
        thread_local!(static LAST: std::cell::RefCell<(u32, u16, String)> = const { std::cell::RefCell::new((0, 0, String::new())) });
        let dis = LAST.with(|last| {
            let mut last = last.borrow_mut();
            if (last.0, last.1) != (instruction.pc, instruction.opcode) || last.2.is_empty() {
                *last = (instruction.pc, instruction.opcode, instruction.disassemble());
            }
            last.2.clone()
        });
        let trace""")],
  needs="The same opcode executed twice in a row at the same address, with its extension word changed in between",
  breaks="The text shows the old operand while the new one is executed.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x303C, 1]); // MOVE.W #1,D0
    cpu.disassembler_interpreter(&mut mem[..]);
    put(&mut mem, 0x1002, &[77]);
    cpu.regs.pc.0 = 0x1000;
    let (_, text, _) = cpu.disassembler_interpreter(&mut mem[..]);
    check(cpu.regs.d[0].0 == 77 && text.contains("77"), "the text is the instruction executed");
}"""),

dict(id="c15_spurious_for_odd_stack", property="C15",
  edits=[(E, "                        } else {\n                            self.exception(Exception::from(e));\n                        }\n                    } else {", "                        } else {\n                            self.exception(Exception::from(e));\n                        }\n                    } else if exception.is_interrupt() {\n                        self.exception(Exception::from(Vector::SpuriousInterrupt));\n                    } else {")],
  needs="An interrupt taken with an odd supervisor stack pointer",
  breaks="A spurious interrupt is raised instead of an address error.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4E71, 0x4E71]);
    cpu.regs.ssp.0 = 0x3001;
    cpu.regs.sr.interrupt_mask = 0;
    cpu.exception(m68000::exception::Exception::from(28));
    cpu.interpreter(&mut mem[..]);
    cpu.regs.ssp.0 = 0x3000;
    cpu.regs.pc.0 = 0x1000;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.pc.0 & 0xFFF0 == 0x4030, "address error handler");
}"""),

dict(id="c15_failed_entry_restores_sr", property="C15",
  edits=[(E, "            total += match self.process_exception(memory, exception.vector) {\n                Ok(cycles) => cycles,\n                Err(e) => {", "            let sr = self.regs.sr;\n            total += match self.process_exception(memory, exception.vector) {\n                Ok(cycles) => cycles,\n                Err(e) => {\n                    self.regs.sr = sr; // Not entered.")],
  needs="An exception whose entry fails while the program runs in user mode, and the instruction executed afterwards",
  breaks="The next instruction is executed in user mode.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4E71, 0x4E71]);
    cpu.regs.sr.s = false;
    cpu.regs.ssp.0 = 0x3001;
    cpu.exception(m68000::exception::Exception::from(32));
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.sr.s, "supervisor mode after the attempt");
}"""),

dict(id="c09_user_stack_byte_step", property="C09",
  edits=[(A, "        *areg -= if reg == 7 { size.as_word_long() }", "        *areg -= if reg == 7 && supervisor { size.as_word_long() }"),
         (A, "    pub(super) fn ariwpr(&mut self, reg: u8, size: Size) -> u32 {\n", "    pub(super) fn ariwpr(&mut self, reg: u8, size: Size) -> u32 {\n        let supervisor = self.regs.sr.s;\n")],
  needs="A byte pushed with -(A7) in user mode",
  breaks="The user stack pointer moves by one.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x1F00]); // MOVE.B D0,-(A7)
    cpu.regs.sr.s = false;
    cpu.regs.usp.0 = 0x2000;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.usp.0 == 0x1FFE, "the stack pointer stays even");
}"""),

dict(id="c03_subq_address_wraps_flag", property="C03",
  edits=[(I, "            *self.regs.a_mut(am.register().unwrap()) -= imm as u32;\n            return", "            let areg = self.regs.a_mut(am.register().unwrap());\n            let borrow = areg.0 < imm as u32;\n            *areg -= imm as u32;\n            self.regs.sr.c |= borrow;\n            return")],
  needs="SUBQ on an address register that goes below zero",
  breaks="The carry flag is set.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x5148]); // SUBQ.W #8,A0
    cpu.regs.a[0].0 = 7;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.a[0].0 == 0xFFFF_FFFF && !cpu.regs.sr.c, "no flag changes");
}"""),

dict(id="c08_link_stack_pointer_value", property="C08",
  edits=[(I, "        let addr = self.ariwpr(7, Size::Long);\n        memory.set_long(addr.even()?, self.regs.a(reg)).ok_or(ACCESS_ERROR)?;\n        self.regs.a_mut(reg).0 = addr;\n        *self.regs.sp_mut() += disp as u32;", "        let value = self.regs.a(reg);\n        let addr = self.ariwpr(7, Size::Long);\n        memory.set_long(addr.even()?, value).ok_or(ACCESS_ERROR)?;\n        self.regs.a_mut(reg).0 = addr;\n        *self.regs.sp_mut() += disp as u32;")],
  needs="LINK A7",
  breaks="The stack pointer before the push is saved, not the one after it.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4E57, 0xFFF0]); // LINK A7,#-16
    let sp = cpu.regs.ssp.0;
    cpu.interpreter(&mut mem[..]);
    check(long(&mem, sp - 4) == sp - 4, "the decremented stack pointer is pushed");
}"""),

dict(id="c05_abcd_same_memory_register", property="C05",
  edits=[(I, "            let src_addr = self.ariwpr(ry, Size::Byte);\n            let dst_addr = self.ariwpr(rx, Size::Byte);\n            (memory.get_byte(src_addr).ok_or(ACCESS_ERROR)?, memory.get_byte(dst_addr).ok_or(ACCESS_ERROR)?)\n        } else {\n            (self.regs.d[ry", "            let src_addr = self.ariwpr(ry, Size::Byte);\n            let dst_addr = if rx == ry { src_addr } else { self.ariwpr(rx, Size::Byte) };\n            (memory.get_byte(src_addr).ok_or(ACCESS_ERROR)?, memory.get_byte(dst_addr).ok_or(ACCESS_ERROR)?)\n        } else {\n            (self.regs.d[ry")],
  needs="ABCD -(An),-(An) with the same register twice",
  breaks="A digit pair is added to itself instead of to its neighbour.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0xC108]); // ABCD -(A0),-(A0)
    cpu.regs.a[0].0 = 0x7002;
    mem[0x7000] = 0x12;
    mem[0x7001] = 0x34;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.a[0].0 == 0x7000 && mem[0x7000] == 0x46 && mem[0x7001] == 0x34, "neighbours are added");
}"""),

dict(id="c04_divs_quotient_minimum", property="C04",
  edits=[(I, "        self.regs.sr.v = quot < i16::MIN as i32 || quot > i16::MAX as i32;", "        self.regs.sr.v = quot.unsigned_abs() > i16::MAX as u32;")],
  needs="DIVS with a quotient of exactly -32768",
  breaks="It is reported as an overflow.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x81C1]); // DIVS D1,D0
    cpu.regs.d[0].0 = -65537i32 as u32;
    cpu.regs.d[1].0 = 2;
    cpu.interpreter(&mut mem[..]);
    check(!cpu.regs.sr.v && cpu.regs.d[0].0 == 0xFFFF_8000, "quotient -32768, remainder -1");
}"""),

dict(id="c10_dbcc_true_zero_counter", property="C10",
  edits=[(I, "        if !self.regs.sr.condition(cc) {\n            let counter = (", "        if !self.regs.sr.condition(cc) || cc != 0 && self.regs.d[reg as usize].0 as u16 == 0 {\n            let counter = (")],
  needs="DBcc whose condition is true while its counter is zero",
  breaks="The counter is decremented.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x57C8, 0x0010]); // DBEQ D0
    cpu.regs.sr.z = true;
    cpu.regs.d[0].0 = 0xABCD_0000;
    cpu.interpreter(&mut mem[..]);
    check(cpu.regs.d[0].0 == 0xABCD_0000, "the counter is left alone");
}"""),

dict(id="c11_stop_loads_before_check", property="C11",
  edits=[(I, "    pub(super) fn execute_stop(&mut self, imm: u16) -> InterpreterResult {\n        self.check_supervisor()?;\n\n        self.regs.sr = imm.into();", "    pub(super) fn execute_stop(&mut self, imm: u16) -> InterpreterResult {\n        let allowed = self.check_supervisor();\n        self.regs.sr = imm.into();\n        allowed?;\n")],
  needs="STOP in user mode",
  breaks="The status register takes the operand although the instruction is refused.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4E72, 0x2000]);
    cpu.regs.sr = 0x0700.into();
    let (_, v) = cpu.interpreter_exception(&mut mem[..]);
    check(v == Some(8) && u16::from(cpu.regs.sr) == 0x0700, "refused and unchanged");
}"""),

dict(id="c16_movem_empty_list_time", property="C16",
  edits=[(I, "        let count = list.count_ones() as usize;\n        let mut exec_time = 0;", "        let count = list.count_ones().max(1) as usize;\n        let mut exec_time = 0;")],
  needs="MOVEM with an empty register list",
  breaks="The time of one register is counted.",
  demo=r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x48D0, 0]); // MOVEM.L ,(A0)
    cpu.regs.a[0].0 = 0x7000;
    check(cpu.interpreter(&mut mem[..]) == 8, "8 cycles");
}"""),

dict(id="c22_target_past_the_end", property="C22",
  edits=[(S, "    let disp = inst.operands.displacement();\n    format!(\"BRA {disp} <{:#X}>\", inst.pc.wrapping_add(2).wrapping_add(disp as u32))", "    let disp = inst.operands.displacement();\n    format!(\"BRA {disp} <{:#X}>\", inst.pc as i64 + 2 + disp as i64)")],
  needs="BRA across the end or the beginning of the address space",
  breaks="The text shows an address that does not exist.",
  demo=r"""
fn main() {
    let w: [u16; 1] = [0x6010];
    let mut m = &w[..];
    let mut i = m68000::instruction::Instruction::from_memory(&mut m68000::MemoryAccess::iter_u16(&mut m, 0)).unwrap();
    i.pc = 0xFFFF_FFF8;
    check(i.disassemble() == "BRA 16 <0xA>", "the target wraps");
}"""),

dict(id="c18_iterator_stays_on_refused", property="C18",
  edits=[(M, "            let data = self.memory.get_word(self.next_addr);\n            self.next_addr = self.next_addr.wrapping_add(2);\n            Some(data.ok_or(ACCESS_ERROR))", "            let data = self.memory.get_word(self.next_addr);\n            if data.is_some() {\n                self.next_addr = self.next_addr.wrapping_add(2);\n            }\n            Some(data.ok_or(ACCESS_ERROR))")],
  needs="The disassembling interpreter at an address where no memory is",
  breaks="The program counter is not the one the plain interpreter leaves.",
  demo=r"""
fn main() {
    let (mut cpu, mem) = setup::<m68000::cpu_details::Mc68000>(&[]);
    let mut a = cpu.clone();
    let mut m = mem.clone();
    cpu.regs.pc.0 = 0x2_0000;
    a.regs.pc.0 = 0x2_0000;
    let mut n = mem.clone();
    cpu.interpreter_exception(&mut m[..]);
    a.disassembler_interpreter_exception(&mut n[..]);
    check(cpu.regs == a.regs, "same registers");
}"""),

dict(id="c25_zero_buffer_skips", property="C25", ffi=True,
  edits=[(FL, "                unsafe {\n                    let (pc, dis, cycles, vector) = (*m68000)", "                unsafe {\n                    if len == 0 {\n                        let (cycles, vector) = (*m68000).interpreter_exception(&mut *memory);\n                        return m68000_disassembler_exception_result_t { cycles, pc: (*m68000).regs.pc.0, exception: vector.unwrap_or(0) };\n                    }\n\n                    let (pc, dis, cycles, vector) = (*m68000)")],
  needs="m68000_*_disassembler_interpreter_exception called with a buffer of no bytes",
  breaks="The address returned is the one after the instruction.",
  demo=r"""
use m68000_ffi::*;
use std::ffi::c_void;
extern "C" fn get(_: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0x4E71_4E71, exception: 0 } }
extern "C" fn sb(_: u32, _: u8, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sw(_: u32, _: u16, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sl(_: u32, _: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn ri(_: *mut c_void) {}

fn main() {
    let mut m = m68000_callbacks_t { get_byte: get, get_word: get, get_long: get, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: ri, user_data: std::ptr::null_mut() };
    let mut buf = [0 as std::os::raw::c_char; 4];
    unsafe {
        let c = mc68000::m68000_mc68000_new_no_reset();
        (*mc68000::m68000_mc68000_registers_mut(c)).pc.0 = 0x1000;
        let r = mc68000::m68000_mc68000_disassembler_interpreter_exception(c, &mut m, buf.as_mut_ptr(), 0);
        check(r.pc == 0x1000 && buf[0] == 0, "the address of the instruction");
        mc68000::m68000_mc68000_delete(c);
    }
}
"""),

dict(id="c30_movem_load_prefetches_next", property="C30",
  edits=[(I, "            if ea.mode.is_ariwpo() {\n                self.regs.a_mut(eareg).0 = addr;\n            }", "            if ea.mode.is_ariwpo() {\n                self.regs.a_mut(eareg).0 = addr;\n                let _ = memory.get_word(addr);\n            }")],
  needs="MOVEM (An)+ from a queue with a device behind it",
  breaks="The word after the last one transferred is read too.",
  demo=r"""
struct Dev(Vec<u8>, Vec<u32>);
impl m68000::MemoryAccess for Dev {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.1.push(a); self.0[..].get_byte(a) }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.1.push(a); self.0[..].get_word(a) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.0[..].set_byte(a, v) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.0[..].set_word(a, v) }
    fn reset_instruction(&mut self) {}
}
fn main() {
    let (mut cpu, mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4C98, 3]); // MOVEM.W (A0)+,D0/D1
    cpu.regs.a[0].0 = 0x7000;
    let mut m = Dev(mem, vec![]);
    cpu.interpreter(&mut m);
    check(!m.1.contains(&0x7004), "only two words are read");
}"""),
]
